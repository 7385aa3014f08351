import math, os, re, json, zlib
from vlib import Group, Op
import vlib, render

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Checked on the elements for which the documents' formulas have exact values (specs/Orbit.tla): angles in eighths of a turn, eccentricities 0, 3/5 and 4/5, rates that make right angles per period; GLONASS: equilibria, circular equatorial orbits, free and straight motion, and the document's worked example. Every term of the formulas takes part with several values.",
    "The plan computes the broadcast elements of a lattice point from the constants the specification lists (mu, rate of the Earth); the code computes the position back. Positions are compared at A/10^8 (about 0.25 m), clocks at 10^-15 s.",
    "Velocities of Keplerian satellites are not computed by the library. Epochs with an eccentric anomaly off the lattice are left open.",
    "The reference epoch of a GLONASS record is the time of ephemeris the library reports (the message frame time)."]


def documents():
    s = open(os.path.join(vlib.ROOT, "specs", "Orbit.tla")).read()
    d = {}
    for name, body in re.findall(r"(\w+)\s*\|-> \[(mu [^\]]*)\]", s):
        d[name] = {k: float(v) for k, v in re.findall(r'(\w+)\s*\|-> "([^"]*)"', body)}
    return d


DOC = documents()
NAME = {0: "gps", 3: "galileo", 4: "beidou"}
WEEK0 = 1825 * 604800 + 4 * 86400       # 2015-01-01 in GPS seconds
RIGHT = math.pi / 2


def geo(f):
    return f["y"] == 4 and (1 <= f["p"] <= 5 or 59 <= f["p"] <= 63)


def text(y, p, toc, week, sow):
    n = {0: 29, 1: 15, 2: 15, 3: 28, 4: 29, 5: 29, 6: 29}[y]
    d = [[0, 0]] * n
    if y in (0, 3, 4, 5, 6):
        d[11] = [sow, 0]
        d[21] = [week - 1356 if y == 4 else week, 0]
    if y == 1: d[2] = [sow, 0]
    return render.nav([{"y": y, "p": p, "t": toc, "o": 0, "d": d, "l": 0, "bad": ""}], comments=0)


def pack(d):
    return " ".join("%d %.17e" % x for x in d.items())


def kepler(f):
    toe = f["wk"] * 604800 + f["sow"] - WEEK0
    txt = text(f["y"], f["p"], toe - f["dc"], f["wk"], f["sow"])
    if f["y"] not in NAME:
        return [txt, "", 1, 1, 0, 0, toe, f["T"]]
    doc = DOC[NAME[f["y"]]]
    T, e = f["T"] / 1000., f["e"] / 5.
    root = 1000. * f["ra"]
    A = root * root
    n0 = math.sqrt(doc["mu"] / A ** 3)
    d = {0: f["a0"] * 1e-10, 1: f["a1"] * 1e-13, 2: f["a2"] * 1e-17,
         4: f["cr"][1] * A / 1e8, 16: f["cr"][0] * A / 1e8,
         5: f["w"] * RIGHT / T - n0, 6: f["q"] * RIGHT + f["ph"] * math.atan2(4, 3) - f["c"] / 5. * e, 8: e, 10: root, 11: f["sow"],
         7: f["cu"][0] * RIGHT / 2, 9: f["cu"][1] * RIGHT / 2, 12: f["ci"][0] * RIGHT / 2, 14: f["ci"][1] * RIGHT / 2,
         13: f["om"] * RIGHT + math.fmod(doc["we"] * f["sow"], 4 * RIGHT), 15: f["i"] * RIGHT / 2, 17: f["o"] * RIGHT / 2,
         18: f["od"] * RIGHT / T + (0 if geo(f) else doc["we"]), 19: f["id"] * RIGHT / 2 / T}
    return [txt, pack(d), repr(1e8 / A), 1, 0, 0 if not geo(f) else repr(-doc["we"] ), toe, f["T"]]


def field(x, doc):
    """Acceleration of a body at rest in the rotating frame."""
    r2 = sum(c * c for c in x)
    r = math.sqrt(r2)
    a = 1.5 * doc["j2"] * doc["mu"] * doc["ae"] ** 2 / r ** 5
    c = -doc["mu"] / r ** 3 - a * (1 - 5 * x[2] ** 2 / r2)
    return [(c + doc["we"] ** 2) * x[0], (c + doc["we"] ** 2) * x[1], (c - 2 * a) * x[2]]


def glonass(f):
    doc = DOC["glonass"]
    toe = f["wk"] * 604800 + f["sow"] - WEEK0
    R = 25.5e6
    x, v, a, z0, turn, sp, sv = [R * k / f["n"] for k in f["v"]], [0] * 3, [0] * 3, 0, 0, 1e8 / R, 1e8 / 4e3
    if f["m"] == 0:
        a = [-k for k in field(x, doc)]
    elif f["m"] == 1:
        rate = math.sqrt(doc["mu"] / R ** 3 + 1.5 * doc["j2"] * doc["mu"] * doc["ae"] ** 2 / R ** 5)
        turn = f["s"] * rate - doc["we"]
        v, sv = [-turn * x[1], turn * x[0], 0], 1e8 / (R * abs(turn))
    elif f["m"] == 2:
        turn = -doc["we"]
        z0 = x[2] = f["s"] * 1e12
        v, sv = [-turn * x[1], turn * x[0], 0], 1e8 / (R * abs(turn))
    else:
        x, z0 = [0, 0, f["s"] * 1e12], f["s"] * 1e12
        v, a, sp, sv = [0, 0, f["sp"]], [0, 0, f["b"] * .2], 10, 10
    d = {0: f["a0"] * 1e-10, 1: f["a1"] * 1e-13}
    for k in range(3):
        d[3 + 4 * k], d[4 + 4 * k], d[5 + 4 * k] = x[k], v[k], a[k]
    return [text(1, f["p"], toe - f["dc"], f["wk"], f["sow"]), pack(d), repr(sp), repr(sv), repr(z0), repr(turn), toe, 1]


def example():
    """GLONASS ICD, J.2.1."""
    t = (1704 * 7 + 5) * 86400 + 11700 - WEEK0
    d = {3: 7003.008789e3, 4: .7835417e3, 5: 0, 7: -12206.626953e3, 8: 2.8042530e3, 9: 1.7e-6, 11: 21280.765625e3, 12: 1.3525150e3, 13: -5.41e-6}
    return [text(1, 1, t, 1704, 5 * 86400 + 11700), pack(d)]


class Orbit(Group):
    harness = "orbit"
    sources = ("navrnx.cpp", "gpsnav.cpp", "glonav.cpp", "galnav.cpp", "bdsnav.cpp", "satsys.cpp", "nvarstr.cpp")
    trace = ("OrbitTrace", "OrbitTrace.cfg")
    queries = frozenset(["eval", "geval", "gevalms", "glimit", "example"])

    def __init__(self, scope):
        self.scope, self.name = scope, "orbit-" + scope
        self.models = {"quick": [("OrbitMC", "Orbit_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("OrbitMC", "Orbit_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}
        self.T = 1000

    def concretize(self, x):
        op, a = x["op"], x["a"]
        if op == "set":
            self.T = a[0]["T"]
            return Op(op, *a, h=kepler(a[0]))
        if op == "gset":
            return Op(op, *a, h=glonass(a[0]))
        if op == "example":
            return Op(op, h=example())
        z = zlib.crc32(json.dumps([x, self.T]).encode())
        if op in ("glimit", "gevalms"):
            return Op(op, *a, h=["mu"[z % 2], a[0]])
        whole = op == "geval" or a[0] * self.T % 1000 == 0
        return Op(op, *a, h=[("smu" if whole else "mu")[z % (3 if whole else 2)], a[0]])

    def random(self, rng, tier):
        if self.scope != "mix": return []
        out = []
        for _ in range(300 if tier == "quick" else 6000):
            sc = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .25:
                    m = rng.randrange(4)
                    v, n = rng.choice([([1, 0, 0], 1), ([-24, 7, 0], 25), ([0, -1, 0], 1)] + ([([0, 0, -1], 1), ([-16, 15, 12], 25), ([20, 9, -12], 25)] if m == 0 else []))
                    f = {"y": 1, "p": rng.randint(1, 24), "m": m, "v": v, "n": n, "s": rng.choice([1, -1]), "b": rng.randint(-5, 5), "sp": rng.randint(-4000, 4000),
                         "a0": rng.randint(-10 ** 6, 10 ** 6), "a1": rng.randint(-99, 99), "wk": rng.randint(1600, 2100), "sow": rng.choice([rng.randrange(0, 604800, 30), rng.choice([0, 900, 604770, 86400 * 3, 86400 * 4 - 30])]), "dc": rng.choice([0, 0, 900, -900, 1800, -60])}
                    sc.append(self.concretize({"op": "gset", "a": [f]}))
                    sc += [self.concretize({"op": "geval", "a": [rng.randint(-930, 930)]}) for _ in range(4)]
                    if m != 3: sc += [self.concretize({"op": "gevalms", "a": [rng.randint(-900000, 900000)]}) for _ in range(3)]
                    sc += [self.concretize({"op": "glimit", "a": [rng.choice([-1, 1]) * (900000 + rng.choice([0, 1, -1, rng.randint(-2000, 2000)]))]}) for _ in range(2)]
                    continue
                y, p = rng.choice([(0, rng.randint(1, 32)), (3, rng.randint(1, 36)), (4, rng.randint(6, 58)), (4, rng.choice([1, 5, 59, 63]))])
                f = {"y": y, "p": p, "e": 0, "ra": rng.randint(5, 7), "q": rng.randrange(4), "ph": 0, "c": 0, "w": rng.randint(-3, 9), "o": rng.randrange(8), "i": rng.randrange(8), "id": rng.choice([0, 0, 2, -2, 4]),
                     "om": rng.randrange(4), "od": rng.randint(-2, 2), "cu": [0, 0], "ci": [0, 0], "cr": [0, 0],
                     "a0": rng.randint(-10 ** 6, 10 ** 6), "a1": rng.randint(-70, 70), "a2": rng.randint(-3, 3), "dc": rng.choice([0, 0, 16, -16, 3600, -7200]),
                     "T": rng.choice([1000, 60000, 900000, 1800000, 7200000, 1003, 60007, 900001]), "wk": rng.randint(1600, 2100), "sow": rng.choice([rng.randrange(0, 604800, 16), 604784, 0])}
                if f["T"] % 1000: f["a2"] = 0
                if not geo(f) and rng.random() < .6:
                    f["e"] = rng.choice([3, 4])
                    if rng.random() < .5:
                        f["q"] = rng.choice([1, 3])
                        f["c"] = 5 if f["q"] == 1 else -5
                        f["w"] *= 4
                        f["o"] -= f["o"] % 2
                        f["i"] -= f["i"] % 2
                        f["cr"] = [125 * rng.randint(-90, 90), 125 * rng.randint(-90, 90)]
                    else:
                        f["q"] = rng.choice([0, 2])
                        f["w"] *= 2
                if f["e"] and rng.random() < .4:
                    f.update(q=rng.randrange(4), ph=1, w=4 * rng.randint(-2, 2), o=2 * rng.randrange(4), i=2 * rng.randrange(4), cr=[0, 0])
                    f["c"] = [4, 3, -4, -3][f["q"]]
                elif f["q"] % 2 == 0 or f["e"] == 0:
                    if f["o"] % 2:
                        f["cu"] = [rng.randint(-2, 2), 1 + 2 * rng.randint(-2, 2)]
                        if f["i"] % 2: f["ci"] = [rng.randint(-2, 2), 1 + 2 * rng.randint(-2, 2)]
                    else:
                        f["cu"] = [2 * rng.randint(-2, 2), rng.randint(-2, 2)]
                        if f["i"] % 2: f["ci"] = [1 + 2 * rng.randint(-2, 2), rng.randint(-2, 2)]
                    if not geo(f): f["cr"] = [rng.randint(-9000, 9000), rng.randint(-9000, 9000)]
                m = max(1, 14400000 // f["T"])
                if f["T"] % 1000 and f["e"]:
                    # the documents know eccentricities below .5; larger ones far
                    # from the perigee need more digits than there are
                    if f["e"] == 4: f["T"] -= f["T"] % 1000
                    else: m = min(m, 16 // max(1, abs(f["w"])))
                sc.append(self.concretize({"op": "set", "a": [f]}))
                sc += [self.concretize({"op": "eval", "a": [rng.randint(-min(m, 9), min(m, 9))]}) for _ in range(4)]
            out.append(sc)
        return out

    def signature(self, m):
        f = {}
        for o in m["scenario"][:m["i"] + 1]:
            if o["op"] in ("set", "gset"): f = o["a"][0]
        if m["op"] == "eval": return "kepler%d%s" % (f.get("y", -1), "geo" if geo(f) else "")
        return "%s%s" % (m["op"], f.get("m", ""))


def groups(prop):
    return {"C16": [Orbit(s) for s in ("plane", "harm", "time", "clock", "glo", "mix")]}[prop]
