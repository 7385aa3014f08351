import json, zlib
from vlib import Group, Op
import render

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Header facts without accessor are read from the public print_members (debug build).",
    "Files are rendered from abstract headers and epochs: header records in several orders, optional records, trailing blanks kept, trimmed or added, indicators blank or digits, final newline present or not.",
    "Values are multiples of 0.001, coefficients multiples of 1/4, so the expected combination is exact; a value of -999.990 (the library's missing marker) is not used.",
    "Exhaustive over all files, requests and call sequences within the constants of specs/ObsMC.tla; larger ones are seeded samples.",
    "After an epoch that cannot be read the position is unspecified until the next rewind; whether an observable that is both mixed and missing is dropped or refused is left open."]
REFUSED = ["type", "system", "version", "noend", "empty", "missing", "pos", "ecc", "clk", "first", "sysletter", "count", "badcode", "dup"]
ALL = ["%s%d%s" % (t, b, a) for b in (1, 2, 5, 7, 8) for a in "CPQXWLI" for t in "CLDS"]


def reqtext(req):
    part = lambda p: "%s.%s*%d" % (render.SYS[p[0]], p[1], p[2])
    return "|".join("%s:%s" % (render.SYS[y], ";".join("+".join(map(part, o)) for o in os)) for y, os in req)


def crc(x):
    return zlib.crc32(json.dumps(x).encode())


class Obs(Group):
    harness = "obs"
    sources = ("obsrnx.cpp", "antenna.cpp", "satellite.cpp", "satsys.cpp", "gnssobs.cpp", "gnssobsrv.cpp", "nvarstr.cpp")
    trace = ("ObsTrace", "ObsTrace.cfg")

    def __init__(self, scope):
        self.scope, self.name = scope, "obs-" + scope
        self.queries = frozenset(["request", "field"] if scope in ("req", "val") else [])
        if scope == "val": self.queries = frozenset(["field"])
        self.models = {"quick": [("ObsMC", "Obs_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("ObsMC", "Obs_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}

    def concretize(self, x):
        op, a = x["op"], x["a"]
        if op == "load":
            how, h, es = a
            z = crc(a)
            if how:
                kind = REFUSED[(z + self.turn) % len(REFUSED)]
                self.turn += 1
                return Op(op, 1, {}, [], h=[1 if kind == "missing" else 2, render.obs(h, es, kind)])
            return Op(op, *a, h=[0, render.obs(h, es, "ok", z % 3 > 0)])
        if op == "request":
            return Op(op, *a, h=[int(a[1]), reqtext(a[0])])
        if op == "field":
            v, p, q = a
            t = (render.fixed(v[1] * 10 ** 6 + v[2], 14, 3) if v[0] else " " * 14) + ("%d" % p if p else " ") + ("%d" % q if q else " ")
            return Op(op, *a, h=[t.rstrip() if (p + q) % 2 else t])
        if op == "move":
            return Op(op, *a, h=[a[0], render.obs(dict(self.base(), decl=[[0, ["C1C"] * 1]]), [])])
        return Op(op, *a)
    turn = 0

    @staticmethod
    def base():
        return {"sys": 7, "ver": 304, "mk": [], "mn": [], "rn": [], "rt": [], "ant": [], "pos": [], "ecc": [], "clk": -1, "first": [], "decl": [], "l": 0}

    # ---- seeded larger files
    def head(self, rng):
        h = self.head1(rng)
        for d in h["decl"]:
            # a code that stands twice: the first column counts, the columns of the others stay
            if len(d[1]) < 90 and rng.random() < .12: d[1].insert(rng.randint(0, len(d[1])), rng.choice(d[1]))
        return h

    def head1(self, rng):
        t = lambda n: [ord(c) for c in "".join(rng.choice("ABCDEFGH 0123456789.-") for _ in range(rng.randint(0, n))).rstrip()]
        limb = lambda: list(divmod(rng.randint(-7 * 10 ** 10, 7 * 10 ** 10), 10 ** 6))
        small = lambda: list(divmod(rng.randint(-10 ** 5, 10 ** 5), 10 ** 6))
        ys = rng.sample(range(7), rng.randint(1, 5))
        many = [1, 2, 12, 13, 14, 25, 26, 27, 39, 40, 52, 99, 100, 130]
        return dict(self.base(), sys=rng.randrange(8), ver=rng.choice([300, 302, 303, 304]), mk=t(60), mn=t(20), rn=t(20), rt=t(20),
                    ant=[] if rng.random() < .2 else [t(20) or [65], t(20)],
                    pos=[limb() for _ in range(3)] if rng.random() < .8 else [],
                    ecc=[small() for _ in range(3)] if rng.random() < .8 else [],
                    clk=rng.choice([-1, 0, 1]), first=[rng.randint(-10 ** 8, 10 ** 8), rng.choice([0, 0, 500000, 999999, 1])] if rng.random() < .8 else [],
                    decl=[[y, rng.sample(ALL, rng.choice(many) if self.scope == "head" else rng.choice([1, 2, 3, 5, 13, 20] + [70, 99] * (k == 0)))] for k, y in enumerate(ys)], l=rng.randrange(60))

    def req(self, rng, h):
        out = []
        decl = dict((a, b) for a, b in h["decl"])
        for y in sorted(set(rng.sample(range(7), rng.randint(1, 4)) if not decl or rng.random() < .5 else rng.choices(sorted(decl), k=rng.randint(1, 5)))):
            pool = decl.get(y, []) * 3 + [rng.choice(ALL)]
            os = []
            for _ in range(rng.randint(1, 5)):
                n = rng.choice([1, 1, 1, 2, 3])
                o = [[y, rng.choice(pool), rng.choice([4, 4, 4, -4, 2, 6, -10, 1, 10, 0])] for _ in range(n)]
                gone = any(c not in decl.get(y, []) for _, c, _ in o)
                if not gone and rng.random() < .03: o[-1][0] = (y + 1) % 7 if (y + 1) % 7 in decl and o[-1][1] in decl[(y + 1) % 7] else y
                os.append(o)
            out.append([y, os])
        return out

    def eps(self, rng, h):
        es, t = [], rng.randint(-3 * 10 ** 8, 3 * 10 ** 8)
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            t += rng.choice([1, 15, 30])
            e = {"t": t, "u": rng.choice([0, 0, 0, 5000000, 9999999, 1]), "fl": rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]), "n": 0, "sats": [], "bad": "", "l": rng.randrange(252)}
            if e["fl"] > 1: e["n"] = rng.randint(0, 5)
            else:
                for y, p in sorted({(rng.choice([a for a, _ in h["decl"]]), rng.randint(1, 60)) for _ in range(rng.choice([0, 1, 3, 12, 50]))}, key=lambda _: rng.random()):
                    n = len(dict((a, b) for a, b in h["decl"])[y])
                    val = lambda: [0, 0, 0] if rng.random() < .25 else [1] + list(divmod(rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 9, 10 ** 12)]), 10 ** 6))
                    e["sats"].append({"y": y, "p": p, "v": [val() for _ in range(n)]})
            es.append(e)
        if es and rng.random() < .25 and self.scope != "val":
            k = rng.randrange(len(es))
            if es[k]["fl"] < 2 and es[k]["sats"]: es[k]["bad"] = rng.choice(["mark", "date", "sat", "count", "nsat", "time", "sec", "number", "half", "half", "val", "prn"])
        return es

    def fixed(self, tier):
        limb = lambda n: list(divmod(n, 10 ** 6))
        out = []
        if self.scope == "head":
            # everything that can be wrong with a header, every field at its full width
            for l in range(12):
                h = dict(self.base(), sys=l % 8, mk=[65] * 60, mn=[66] * 20, rn=[67] * 20, rt=[68] * 20, ant=[[69] * 20, [[70] * 20, [71], [32] * 19 + [72]][l % 3]],
                         pos=[limb(-12345678 * 10 ** 4), limb(987654321 * 10 ** 4), limb(-11111111 * 10 ** 4)], ecc=[limb(-98765432 * 10 ** 4), limb(-12345678 * 10 ** 4), limb(-55555555 * 10 ** 4)],
                         clk=1, first=[86399, 999999], decl=[[0, ["C1C", "L1C"]]], l=l)
                good = self.concretize({"op": "load", "a": [0, h, []]})
                for kind in REFUSED:
                    out.append([good, Op("head"), Op("load", 1, {}, [], h=[1 if kind == "missing" else 2, render.obs(h, [], kind)]), Op("head"), Op("first")])
        if self.scope == "req":
            # combinations of several parts, the one of another system (or that is not in the file) at each place
            h = dict(self.base(), decl=[[y, ["C1C", "L1C", "C2W", "L2W"]] for y in (0, 1, 3)])
            sc = [self.concretize({"op": "load", "a": [0, h, []]})]
            for n in (1, 2, 3, 4):
                for k in range(n):
                    for odd in ([1, "C1C", 4], [3, "L2W", 4], [0, "C9X", 4], [4, "C1C", 4], [0, "C1C", 0]):
                        o = [[0, c, 4 * (i + 1)] for i, c in enumerate(["L2W", "C1C", "C2W", "L1C"][:n])]
                        o[k] = odd
                        for skip in (True, False):
                            sc.append(self.concretize({"op": "request", "a": [[[0, [[[0, "C1C", 4]], o, [[0, "L1C", 4]]]], [1, [[[1, "C1C", 2]]]]], skip]}))
            out.append(sc)
        if self.scope == "epo":
            # a file that ends within the special records of an event
            h = dict(self.base(), decl=[[0, ["C1C", "L1C"]]])
            for fl in (2, 3, 4, 5, 6):
                for n in (1, 3):
                    sp = {"t": 3600, "u": 0, "fl": fl, "n": n, "sats": [], "bad": "cut", "l": fl + n}
                    good = {"t": 1800, "u": 0, "fl": 0, "n": 0, "sats": [{"y": 0, "p": 3, "v": [[1, 1, 2], [1, 3, 4]]}], "bad": "", "l": n}
                    for es in ([sp], [good, sp], [good, dict(sp, bad=""), sp]):
                        out.append([self.concretize({"op": "load", "a": [0, h, es]}), self.concretize({"op": "request", "a": [[[0, [[[0, "C1C", 4]]]]], True]}),
                                    Op("next"), Op("next"), Op("rewind"), Op("next"), Op("next")])
            # everything that can be wrong with an epoch; as many satellites as fit
            h = dict(self.base(), decl=[[0, ["C1C", "L1C"]], [1, ["C1C"]]])
            req = self.concretize({"op": "request", "a": [[[0, [[[0, "C1C", 4]]]], [1, [[[1, "C1C", 2]]]]], True]})
            ep = lambda ss, l=0, bad="": {"t": 86400 * l + 59, "u": 9999999, "fl": 0, "n": 0, "sats": ss, "bad": bad, "l": l}
            sat = lambda y, p: {"y": y, "p": p, "v": [[1, p, y]] * (2 - y)}
            for bad in ["mark", "date", "time", "sec", "number", "sat", "count", "nsat", "prn", "val", "half", "cut"]:
                for l in range(15):
                    es = [ep([sat(1, 2), sat(0, 3)], l), ep([sat(0, 1), sat(1, 99)], l, bad)] + [ep([sat(0, 1)], l)] * (bad != "cut")
                    out.append([self.concretize({"op": "load", "a": [0, h, es]}), req, Op("next"), Op("next"), Op("rewind"), Op("next"), Op("next")])
            # values as wide as their field; a code that is declared twice; a hundred columns
            two = dict(self.base(), decl=[[0, ["C1C", "L1C", "C1C", "S1C", "L1C", "D1C"]]])
            wide = dict(self.base(), decl=[[0, ALL[:100]]])
            v = lambda n: [1] + limb(n)
            row = [v(n) for n in (-999999999900, -123456789100, 9999999999000, 1234567890120, -100000000001, 9000000000099)]
            rq = lambda *os: self.concretize({"op": "request", "a": [[[0, [[[0, c, 4]] for c in os]]], True]})
            for l in range(12):
                es = [ep([{"y": 0, "p": 1, "v": row[k:] + row[:k]}], l) for k in range(6)]
                out.append([self.concretize({"op": "load", "a": [0, two, es]}), rq("D1C", "S1C", "L1C", "C1C")] + [Op("next")] * 7)
                es = [ep([{"y": 0, "p": k, "v": [v((-1) ** j * (1000 * j + k)) for j in range(100)]}], l) for k in (1, 2)]
                out.append([self.concretize({"op": "load", "a": [0, wide, es]}), rq(*ALL[l::9][:12]), Op("next"),
                            self.concretize({"op": "request", "a": [[[0, [[[0, ALL[99 - l], -10], [0, ALL[60 + l], 2]], [[0, ALL[l], 6]]]]], True]}), Op("next"), Op("next")])
            for n in (79, 80):
                es = [ep([sat(k % 2, k + 1) for k in range(n)], l) for l in (0, 1, 2)]
                out.append([self.concretize({"op": "load", "a": [0, h, es]}), req] + [Op("next")] * 4)
        return out

    def random(self, rng, tier):
        out = []
        for _ in range({"head": 150, "req": 150, "epo": 120, "val": 80, "move": 60}[self.scope] * (1 if tier == "quick" else 12)):
            h = self.head(rng)
            es = [] if self.scope in ("head", "req") else self.eps(rng, h)
            load = self.concretize({"op": "load", "a": [0, h, es]})
            sc = [load]
            if self.scope == "head":
                sc += [Op("head"), Op("first"), self.concretize({"op": "load", "a": [1, h, es]}), Op("head")]
            elif self.scope == "req":
                sc += [self.concretize({"op": "request", "a": [self.req(rng, h), rng.random() < .6]}) for _ in range(12)]
            else:
                if rng.random() < .8: sc.append(self.concretize({"op": "request", "a": [self.req(rng, h), True]}))
                for _ in range(rng.randint(3, 20)):
                    r = rng.random()
                    if r < .15: sc.append(self.concretize({"op": "request", "a": [self.req(rng, h), True]}))
                    elif r < .75: sc.append(Op("next"))
                    elif r < .85: sc.append(Op("rewind"))
                    elif r < .9: sc.append(Op("errno"))
                    elif r < .95: sc.append(self.concretize({"op": "load", "a": [1, h, es]}))
                    elif self.scope == "move": sc.append(self.concretize({"op": "move", "a": [rng.randrange(3)]}))
                    else: sc.append(Op("head"))
            out.append(sc)
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C17": [Obs("head")], "C18": [Obs("req")], "C19": [Obs("epo"), Obs("val")]}[prop]
