from vlib import Group, Op

ASSUMPTIONS = [
    "Texts are NUL-terminated byte strings; bytes are compared as unsigned codes.",
    "The harness reads and calls only the public API, compiled from /repo/src with ASan and UBSan.",
    "Exhaustive within the constants of specs/AntennasMC.tla; longer histories are seeded samples."]


class Antennas(Group):
    harness = "antennas"
    sources = ("antenna.cpp", "satellite.cpp", "satsys.cpp")
    trace = ("AntennasTrace", "AntennasTrace.cfg")
    queries = frozenset("name has model same cmpser sis sstr vget vstr vlong".split())

    def __init__(self, scope):
        self.scope = self.name = scope
        self.models = {"quick": [("AntennasMC", "Antennas_%s_quick.cfg" % scope, {})],
                       "thorough": [("AntennasMC", "Antennas_%s_deep.cfg" % scope, {"heap": "8g"})]}

    def text(self, rng, blank=0.15, alpha=b"ABCXYZ0189/-_.+az"):
        n = rng.choice([0, 1, 3, 8, 14, 15, 16, 17, 18, 19, 20, 20, 20, 21, 22, 24, 39, 40, 41, 45])
        t = [32 if rng.random() < blank else rng.choice(alpha) for _ in range(n)]
        if n >= 17 and rng.random() < .5:
            a, b = sorted((rng.randint(8, n), rng.randint(8, n)))
            for k in range(a, b):
                t[k] = 32
        if rng.random() < .05:
            t = [rng.randint(1, 255) for _ in range(n)]
        return t

    def random(self, rng, tier):
        n = 400 if tier == "quick" else 4000
        out = []
        for _ in range(n):
            sc, pool = [], [self.text(rng) for _ in range(3)]
            near = list(rng.choice(pool))
            if near:
                near[rng.randrange(len(near))] = rng.choice(b"QR ")
            pool.append(near)
            ser = [self.text(rng, .1, b"0123456789AB ")[:24] for _ in range(4)]
            pick = lambda p: rng.choice(p) if rng.random() < .8 else self.text(rng)
            R = lambda: rng.randint(1, 3)
            for _ in range(rng.randint(4, 24)):
                if self.scope == "names":
                    sc.append(Op("make", R(), pick(pool), rng.randint(0, 1)) if rng.random() < .8 else Op("name", R()))
                elif self.scope == "serials":
                    k = rng.random()
                    if k < .2: sc.append(Op("make", R(), pick(pool), rng.randint(0, 1)))
                    elif k < .45: sc.append(Op("setser", R(), pick(ser)))
                    elif k < .55: sc.append(Op("copy", R(), R()))
                    elif k < .58: sc.append(Op("new", R()))
                    elif k < .66: sc.append(Op("has", R()))
                    elif k < .76: sc.append(Op("model", R(), R()))
                    elif k < .86: sc.append(Op("same", R(), R()))
                    else:
                        t = pick(ser)
                        if rng.random() < .3: t = t + [32] * rng.randint(0, 3)
                        sc.append(Op("cmpser", R(), t))
                elif self.scope == "satant":
                    k = rng.random()
                    if k < .15: sc.append(Op("smake", R(), pick(pool)))
                    elif k < .45: sc.append(Op("sset", R(), pick(pool)))
                    elif k < .55: sc.append(Op("scopy", R(), R()))
                    elif k < .58: sc.append(Op("snew", R()))
                    elif k < .8: sc.append(Op("sis", R(), pick(pool)))
                    else: sc.append(Op("sstr", R()))
                else:
                    k = rng.random()
                    r = R()
                    if k < .1: sc.append(Op("vnew1", r, rng.randint(0, 7)))
                    elif k < .2: sc.append(Op("vnew2", r, rng.randint(0, 7), rng.choice([0, 1, 9, 10, 11, 32, 99, 100, 120])))
                    elif k < .26: sc.append(Op("vsys", r, rng.randint(0, 7)))
                    elif k < .34: sc.append(Op("vprn", r, rng.randint(0, 130)))
                    elif k < .44: sc.append(Op("vsvn", r, rng.choice([0, 1, 9, 10, 74, 99, 100, 735, 999, 1234])))
                    elif k < .52: sc.append(Op("vant", r, pick(pool)))
                    elif k < .6: sc.append(Op("vcospar", r, [rng.choice(b"0123456789-ABC") for _ in range(9)]))
                    elif k < .7: sc.append(Op("vcopy", r, R()))
                    else: sc.append(Op("vget", r))
            if self.scope == "sats":
                # printing needs non-negative numbers: set them first
                for r in (1, 2):
                    sc += [Op("vprn", r, rng.randint(0, 40)), Op("vsvn", r, rng.randint(0, 900)), Op("vstr", r), Op("vlong", r)]
            out.append(sc)
        return out

    def fixed(self, tier):
        """Systematic sweeps: texts that differ in exactly one column, every
        length, and every PRN/SVN up to four digits."""
        T = lambda n: [65 + k % 26 for k in range(n)]
        out = []
        if self.scope == "serials":
            for k in range(24):
                a, b = T(24), T(24)
                b[k] = 48
                for sa, sb in ((T(5), T(5)), (T(24), b)):
                    out.append([Op("make", 1, a, 0), Op("make", 2, b, 1), Op("model", 1, 2), Op("model", 2, 1),
                                Op("setser", 1, sa), Op("setser", 2, sb), Op("same", 1, 2), Op("same", 2, 1),
                                Op("cmpser", 1, sb), Op("cmpser", 2, sa),
                                Op("make", 2, a, 0), Op("setser", 2, sb), Op("same", 1, 2), Op("same", 2, 1), Op("model", 1, 2)])
            for m in range(24):
                out.append([Op("make", 1, T(20), 0)] + [x for n in range(24) for x in
                           (Op("setser", 1, T(m)), Op("setser", 1, T(n)), Op("cmpser", 1, T(n)), Op("cmpser", 1, T(m)), Op("has", 1))])
        if self.scope == "satant":
            for m in range(23):
                out.append([x for n in range(23) for x in
                            (Op("sset", 1, [97] * m), Op("sset", 1, T(n)), Op("sis", 1, T(n)), Op("sis", 1, T(m)), Op("sstr", 1))])
            for k in range(22):
                b = T(22)
                b[k] = 48
                out.append([Op("smake", 1, T(22)), Op("sis", 1, b), Op("smake", 1, b), Op("sis", 1, T(22)), Op("sis", 1, b)])
        if self.scope == "sats":
            hi = 1100 if tier == "quick" else 12000
            for lo in range(0, hi, 100):
                sc = [Op("vnew2", 1, lo // 100 % 8, 1), Op("vcospar", 1, T(9))]
                for v in range(lo, lo + 100):
                    sc += [Op("vsvn", 1, v), Op("vlong", 1)]
                    if v < 1100:
                        sc += [Op("vprn", 1, v), Op("vstr", 1)]
                out.append(sc)
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C05": [Antennas("names")],
            "C06": [Antennas("serials")],
            "C07": [Antennas("satant"), Antennas("sats")]}[prop]
