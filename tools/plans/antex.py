import json, zlib
from vlib import Group, Op
import render
from render import txt

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Files are rendered from abstract files: 80-column records, at most 62 grid values per row, Windows are in whole seconds.",
    "Exhaustive over all files and query histories within the constants of specs/AntexMC.tla; larger files and histories are seeded samples.",
    "Where several generic (or several identical) calibrations exist any of them is accepted."]
BAD = ["version", "system", "relative", "noend", "empty", "missing"]


class Antex(Group):
    harness = "antex"
    sources = ("antex.cpp", "antenna.cpp", "antenna_pcv.cpp", "satellite.cpp", "satsys.cpp", "gnssobs.cpp", "nvarstr.cpp")
    trace = ("AntexTrace", "AntexTrace.cfg")
    turn = 0
    queries = frozenset("rec sat info".split())

    def __init__(self, scope):
        self.scope, self.name = scope, "antex-" + scope
        self.models = {"quick": [("AntexMC", "Antex_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("AntexMC", "Antex_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}

    def concretize(self, x):
        op, a = x["op"], x["a"]
        if op == "load":
            n, how, ok, bs = a
            z = zlib.crc32(json.dumps(a).encode())
            kind = ("v13" if z % 5 == 0 else "ok") if ok else BAD[self.turn % len(BAD)]
            self.turn += not ok
            text = "" if kind == "missing" else render.antex(bs, kind, z % 3 > 0, z % 7)
            return Op(op, *a, h=[how, ("f%d" if ok else "bad%d") % n, int(kind == "missing"), text])
        if op == "rec":
            return Op(op, *a, h=[a[0], a[1], a[2]])
        if op == "move":
            return Op(op, *a, h=[a[0], render.antex([{"k": "r", "name": list(b"XXX"), "ser": [], "f": [[0, 1, 1, 1, 1]]}])])
        return Op(op, *a)

    def rblock(self, rng, names, sers):
        bad = 0 if rng.random() < .9 else rng.randint(10, 20)
        return {"k": "r", "name": rng.choice(names), "ser": rng.choice(sers) if rng.random() < .5 else [],
                "f": self.freqs(rng) or ([[0, 1, 1, 2, 3]] if bad > 15 else []), "bad": bad, "d": self.d(rng)}

    @staticmethod
    def d(rng):
        return rng.randrange(12) if rng.random() < .9 else rng.randrange(36)

    def freqs(self, rng):
        n = rng.choice([0, 1, 2, 2, 3, 5, 8])
        return [[rng.choice([0, 1, 3, 4, 5, 2]), rng.choice([1, 2, 5, 6, 7, 8]), rng.randint(-99999, 99999), rng.randint(-999, 999), rng.randint(-40000, 300000)] for _ in range(n)]

    def sblock(self, rng):
        y = rng.choice([0, 0, 1, 3])
        fr = rng.choice([-500, -50, 0, 0, 40, 100, 200])
        return {"k": "s", "ty": rng.choice([list(b"BLOCK IIF"), list(b"GLONASS-K1"), list(b"GALILEO-2"), list(b"BLOCK IIR-M 20CHARS!")]),
                "sys": y, "prn": rng.choice([1, 2, 3, 11, 32]), "svn": rng.choice([-1, 1, 32, 63, 730]),
                "cos": rng.choice([[], list(b"2010-022A"), list(b"1993-068A"), list(b"1993-068B"), list(b"2010-022")]), "from": [fr],
                "until": rng.choice([[], [fr + rng.choice([0, 1, 50, 99, 10 ** 8])]]), "f": self.freqs(rng) or [[0, 1, 1, 2, 3]],
                "bad": rng.choice([0] * 8 + [1, 2, 3, 4, 5, 6] + [rng.randint(10, 20)]), "d": self.d(rng)}

    def fixed(self, tier):
        if self.scope not in ("sat", "hist", "pco"): return []
        S = lambda svn, bad, un=[99], d=0: {"k": "s", "ty": list(b"BLOCK IIA"), "sys": 0, "prn": 1, "svn": svn, "cos": list(b"1992-079A"),
                                  "from": [0], "until": un, "f": [[0, 1, svn, svn + 1, svn + 2]], "bad": bad, "d": d}
        out = []
        load = lambda bs: self.concretize({"op": "load", "a": [1, 0, 1, bs]})
        if self.scope == "pco":
            # any number of sections, every band
            R = lambda n, f, d: {"k": "r", "name": list(b"TRM59800.00     SCIS"), "ser": [], "f": f, "bad": 0, "d": d}
            for n in list(range(1, 42)) + [99, 100, 120]:
                f = [[(k + n) % 7, (7 * k + n) % 9 + 1, 5 * k - n, n, -k] for k in range(n)]
                out.append([load([R(n, f, n % 12)]), Op("rec", list(b"TRM59800.00     SCIS"), [], 0)])
            return out
        if self.scope == "sat":
            # every number of a satellite, SVN and kind of launch
            for y in range(7):
                bs = [dict(S(0, 0, [], k % 12), sys=y, prn=(37 * k + y) % 99 + 1, svn=(10 * k + y) % 1000, **{"cos": list(b"%04d-%03d%c" % (1978 + k % 60, (7 * k) % 999 + 1, 65 + k % 26)),
                      "f": [[y, 1 + k % 9, k, -k, y]]}) for k in range(100)]
                out.append([load(bs)] + [Op("sat" if p % 2 else "info", y, p, 50) for p in range(101)])
            # windows of all lengths anywhere
            for k in range(40 if tier == "quick" else 400):
                a = -10 ** 9 + (k * 49999933 + k * k * 86399) % (2 * 10 ** 9)
                z = a + [0, 1, 59, 86399, 86400, 10 ** 7, 31 * 86400 - 1][k % 7]
                bs = [dict(S(10 + k, 0, [z], k % 12), **{"from": [a]}), dict(S(500 + k, 0, [], k % 12), **{"from": [z + 1]})]
                if k % 3 == 0: bs.reverse()
                out.append([load(bs)] + [Op("sat", 0, 1, t) for t in (a - 1, a, a + 1, z - 1, z, z + 1, z + 2)])
            # long blocks, with and without an end
            for d in (12, 17, 25, 35):
                for un in ([], [99]):
                    bs = [S(1, 0, un, d), dict(S(2, 0, [], d), prn=2), S(3, 0, [300], d + 1)]
                    out.append([load(bs)] + [Op(o, 0, p, t) for p in (1, 2) for t in (-1, 0, 99, 100, 300, 301) for o in ("sat", "info")])
        if self.scope == "hist":
            for kind in BAD:
                for how in (0, 1):
                    out.append([self.concretize({"op": "load", "a": [1, 0, 1, [S(12, 0)]]}), Op("sat", 0, 1, 50),
                                Op("load", 2, how, 0, [], h=[how, "bad2", int(kind == "missing"), "" if kind == "missing" else render.antex([], kind)]),
                                Op("sat", 0, 1, 50), Op("info", 0, 1, 50)])
        for bad in range(1, 8):
            for bs in ([S(11, bad)], [S(11, bad), S(12, 0)], [S(12, 0), S(11, bad)], [S(11, bad, [], 5), S(12, bad), S(13, 0, [], 3)], [S(12, 0), S(11, bad, [])]):
                if bad == 7: bs = [dict(b, until=[99]) for b in bs]
                sc = [self.concretize({"op": "load", "a": [1, 0, 1, bs]})]
                for t in (-1, 0, 50, 99, 100): sc += [Op("sat", 0, 1, t), Op("info", 0, 1, t)]
                out.append(sc)
        return out

    def random(self, rng, tier):
        out = []
        N = [list(b"TRM59800.00     SCIS"), list(b" TRM59800.00    SCIS"), list(b"TRM59800.00     SCIT"), list(b"TRM59800.00"), list(b"TRM59800.00     NONE"),
             list(b"ASH701945E_M    SNOW"), list(b"LEIAR25.R4      LEIT"), list(b"LEIAR25.R4")]
        Ser = [list(b"5210"), list(b"52100"), list(b"5211"), list(b" 5210"), list(b"7"), list(b"                   X"), list(b"ABCDEFGHIJ0123456789"), list(b"ABCDEFGHIJ012345678")]
        allN, allSer = N, Ser
        for _ in range(60 if tier == "quick" else 900):
            sc = []
            N, Ser = rng.sample(allN, rng.randint(1, 3)), rng.sample(allSer, rng.randint(1, 3))
            def load(how=0):
                bs = []
                for _ in range(rng.choice([0, 1, 3, 6, 10])):
                    bs.append(self.sblock(rng) if rng.random() < .5 else self.rblock(rng, N, Ser))
                if bs and rng.random() < .1: bs[-1]["bad"] = 21
                sc.append(self.concretize({"op": "load", "a": [rng.randint(1, 3), how, 0 if rng.random() < .1 else 1, bs]}))
            load(rng.randint(0, 1))
            for _ in range(rng.randint(5, 30)):
                r = rng.random()
                if r < .08: load(rng.randint(0, 1))
                elif r < .14 and self.scope == "move": sc.append(self.concretize({"op": "move", "a": [rng.randint(0, 3)]}))
                elif r < .5: sc.append(Op("rec", rng.choice(N), rng.choice(Ser + [[], [], []]), rng.randint(0, 1)))
                else: sc.append(Op(rng.choice(["sat", "sat", "info"]), rng.choice([0, 0, 1, 3]), rng.choice([1, 2, 3, 11, 32]),
                                   rng.choice([-501, -500, -50, -1, 0, 1, 39, 40, 90, 91, 100, 149, 150, 199, 200, 250, 10 ** 8])))
            for o in sc:
                if o["op"] == "load" and not o["a"][2]: o["a"][3] = []
            out.append(sc)
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C09": [Antex("rec")], "C10": [Antex("sat")], "C11": [Antex("pco")], "C12": [Antex("hist")]}[prop]
