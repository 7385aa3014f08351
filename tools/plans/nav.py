import json, zlib
from vlib import Group, Op
import render

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Files are rendered from abstract records: D19.12 fields in any of the legal exponent letters and both normalisations, spare fields zero or blank, final newline present or not.",
    "Values have at most 9 significant digits, so that text -> double -> text is exact.",
    "Exhaustive over all files and call sequences within the constants of specs/NavMC.tla; larger files and histories are seeded samples.",
    "After a record that cannot be read the position is unspecified until the next rewind."]
REFUSED = ["type", "system", "version", "noend", "empty", "missing"]


class Nav(Group):
    harness = "nav"
    sources = ("navrnx.cpp", "gpsnav.cpp", "glonav.cpp", "galnav.cpp", "bdsnav.cpp", "satsys.cpp", "nvarstr.cpp")
    trace = ("NavTrace", "NavTrace.cfg")
    turn = 0

    def __init__(self, scope):
        self.scope, self.name = scope, "nav-" + scope
        self.models = {"quick": [("NavMC", "Nav_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("NavMC", "Nav_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}

    def concretize(self, x):
        op, a = x["op"], x["a"]
        if op == "load":
            how, bs = a
            z = zlib.crc32(json.dumps(a).encode())
            if how:
                kind = REFUSED[self.turn % len(REFUSED)]
                self.turn += 1
                return Op(op, 1, [], h=[1 if kind == "missing" else 2, render.nav([], kind)])
            return Op(op, *a, h=[0, render.nav(bs, "ok", z % 3 > 0, [0, 1, 2, 3, 7, 120, 400][z % 7])])
        if op == "valid":
            z = zlib.crc32(json.dumps(a).encode())
            (t, ms), y, p = a
            return Op(op, *a, h=[int(ms == 0 and z % 2), t, ms, y, p])
        if op == "move":
            return Op(op, *a, h=[a[0], render.nav([])])
        return Op(op, *a)

    # ---- seeded larger files
    def num(self, rng):
        if rng.random() < .1: return [0, 0]
        m = rng.randint(1, 10 ** rng.randint(1, 9) - 1)
        if m % 10 == 0: m += 1
        return [m * rng.choice([1, -1]), rng.randint(-15, 6)]

    @staticmethod
    def whole(n):
        if n == 0: return [0, 0]
        e = 0
        while n % 10 == 0: n //= 10; e += 1
        return [n, e]

    def rec(self, rng, dense=False):
        y = rng.choice([0, 0, 1, 1, 3, 4] if dense else [0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 6])
        day = 86400
        t = rng.choice([0, 900, 1800, 2700, 3600, 7200, 7200, 14400, 28800]) if dense else \
            rng.randint(-3000, 3500) * day + rng.choice([0, 900, 7200, 43200, 86399, 85500])
        o = rng.choice([0, 0, 16, -16, 900, -900, 1800]) if y != 1 else rng.choice([0, 0, 900, -900, 1800, -1800])
        e = t + o
        w, sow = divmod(e + 12779 * day, 7 * day)
        n = {1: 15, 2: 15, 3: 27, 4: 28, 6: 28}.get(y, 29)
        d = [self.num(rng) for _ in range(n)]
        he = rng.choice([0, 0, 0, 1, 2, 63, 128, rng.randint(0, 511)])
        slot = lambda k: k if y not in (3, 4) or k < 22 else k - 1
        if y in (0, 3): d[slot(23)] = [rng.randint(0, 999) * 10 + 1, rng.randint(-4, 2)]     # handed out in single precision
        if y in (1,):
            d[2], d[6] = self.whole(sow), self.whole(he)
        elif y != 2:
            d[11], d[21], d[slot(24)] = self.whole(sow), self.whole(w - 1356 if y == 4 else w), self.whole(he)
            if y == 0: d[28] = self.whole(rng.choice([0, 1, 2, 4, 4, 6]))
            if y == 3: d[3] = self.whole(rng.randint(0, 1023))
        return {"y": y, "p": rng.choice([1, 2, 3] if dense else [1, 2, 9, 10, 24, 36, 63]), "t": t, "d": d, "bad": "", "l": rng.randrange(24)}

    def random(self, rng, tier):
        out = []
        for _ in range(({"val": 250}.get(self.scope, 60)) if tier == "quick" else 1500):
            dense = self.scope == "val"
            bs = [self.rec(rng, dense) for _ in range(rng.choice([0, 1, 3, 6, 12]))]
            if self.scope in ("seq", "move") and bs and rng.random() < .3:
                k = rng.randrange(len(bs))
                bs[k]["bad"] = rng.choice(["num", "date", "sys", "prn", "long"])
            if self.scope in ("seq", "move") and bs and rng.random() < .15:
                bs[-1]["bad"] = "cut"
            sc = [self.concretize({"op": "load", "a": [0, bs]})]
            P = sorted({b["p"] for b in bs}) or [1]
            for _ in range(rng.randint(4, 25)):
                r = rng.random()
                if dense and r < .8:
                    t = rng.choice([-14401, -14400, -900, -901, 0, 1, 899, 900, 1799, 1800, 3600, 7199, 7200, 14399, 14400, 20000, 28800])
                    sc.append(self.concretize({"op": "valid", "a": [[t, rng.choice([0, 0, 0, 1, 999])], rng.choice([0, 1, 3, 4]), rng.choice(P + [-1, -1, 0])]}))
                elif r < .45: sc += [Op("read")] + [Op("attr")] * (rng.random() < .5)
                elif r < .55: sc.append(Op("peek"))
                elif r < .65: sc.append(Op("skip"))
                elif r < .75: sc.append(Op("find", rng.randrange(7), rng.choice(P + [-1, -1, 0])))
                elif r < .82: sc.append(Op("rewind"))
                elif r < .90: sc.append(Op("back"))
                elif r < .93: sc.append(Op("errno"))
                elif r < .95: sc.append(self.concretize({"op": "load", "a": [1, []]}))
                elif self.scope == "move": sc.append(self.concretize({"op": "move", "a": [rng.randrange(3)]}))
                else: sc.append(Op("attr"))
            out.append(sc)
        return out

    def fixed(self, tier):
        if self.scope not in ("seq", "val"):
            return []
        # one long file: the wanted block is behind thousands of others
        b = lambda y, p, n: {"y": y, "p": p, "t": 3600, "d": [[k + 1, 0] if k % 10 != 9 else [k + 2, 0] for k in range(n)], "bad": "", "l": 1}
        r = b(1, 1, 15)
        r["d"][2], r["d"][6] = [3492, 2], [0, 0]
        s = b(2, 20, 15)
        far = dict(r, p=7)
        n = 5200 if tier == "quick" else 12000
        bs = [r] * (n // 2) + [s] * (n - n // 2) + [far]
        if self.scope == "val":         # the same for a search by time: other satellites, other times, sick ones
            sick, old = json.loads(json.dumps(r)), json.loads(json.dumps(dict(r, t=3600 - 20000)))
            sick["d"][6], old["d"][2] = [1, 0], [3292, 2]
            bs = [r] * 700 + [s] * 700 + [old] * 700 + [sick] * (n - 2100) + [dict(old, p=7)] * 10 + [far]
            v = lambda p: self.concretize({"op": "valid", "a": [[3600, 0], 1, p]})
            return [[self.concretize({"op": "load", "a": [0, bs]}), v(7), Op("attr"), v(7), Op("rewind"), v(0), Op("rewind"), v(1)]]
        sc = [self.concretize({"op": "load", "a": [0, bs]}), Op("find", 1, 7), Op("read"), Op("back"), Op("peek"),
              Op("find", 0, -1), Op("rewind"), Op("find", 2, 20), Op("find", 1, -1), Op("read")]
        refused = [[self.concretize({"op": "load", "a": [0, [r, s, far]]}), Op("read"),
                    Op("load", 1, [], h=[1 if kind == "missing" else 2, render.nav([], kind)]), Op("read"), Op("attr"), Op("read")] for kind in REFUSED]
        return [sc] + refused

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C13": [Nav("seq")], "C14": [Nav("dec")], "C15": [Nav("val")]}[prop]
