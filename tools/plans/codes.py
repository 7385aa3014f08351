from vlib import Group, Op

ASSUMPTIONS = [
    "Frequencies are compared as exact multiples of 1/8 kHz, coefficients are eighths.",
    "The RINEX 3.04 frequency tables and interface-document constants are transcribed in specs/Codes.tla.",
    "Exhaustive within the constants of specs/CodesMC.tla; longer histories are seeded samples."]

FREQ = {0: [1, 2, 5], 1: [1, 2, 3], 2: [1, 5], 3: [1, 5, 6, 7, 8], 4: [1, 2, 5, 6, 7, 8], 5: [1, 2, 5, 6], 6: [5, 9], 7: [1]}


def hpart(p):
    return ",".join(str(x) for x in p)


class Codes(Group):
    harness = "codes"
    sources = ("satsys.cpp", "gnssobs.cpp", "gnssobsrv.cpp")
    trace = ("CodesTrace", "CodesTrace.cfg")
    queries = frozenset("char2sys sys2char char2typ typ2char csee ceq rstr req fpart fband ftable fattr fconst osee oeq ofreq cbind ateq rbind opart peq hollow".split())

    def __init__(self, scope):
        self.scope = self.name = scope
        self.models = {"quick": [("CodesMC", "Codes_%s_quick.cfg" % scope, {})],
                       "thorough": [("CodesMC", "Codes_%s_deep.cfg" % scope, {"heap": "8g"})]}

    def concretize(self, x):
        a = x["a"]
        if x["op"] in ("onew", "oadd"):
            return Op(x["op"], *a, h=[a[0], hpart(a[1]), a[2]])
        if x["op"] == "oset":
            return Op("oset", *a, h=[a[0], a[1], hpart(a[2])])
        return Op(x["op"], *a)

    def part(self, rng, valid=.85):
        s = rng.randint(0, 7)
        b = rng.choice(FREQ[s]) if rng.random() < valid else rng.randint(0, 9)
        return [s, rng.randint(0, 5), b, rng.choice(b"CXIQWP?"), rng.choice([8, 8, 8, -8, 16, 4, -4, 1, 3, -12, 20, 0, 80]), 0]

    def fixed(self, tier):
        M = lambda op, *a: self.concretize({"op": op, "a": list(a)})
        if self.scope == "texts":
            # every character at the third place, blanks of every kind
            return [[M("cparse", 1, [b"CLDSIX"[c % 6], b"0123456789"[c % 10], c] + [65] * (c % 2)) for c in range(k, 256, 16)] for k in range(1, 17)]
        if self.scope == "codes":
            # attributes, codes and raw observables that differ in one place only
            out = []
            for c in range(33, 127):
                sc = [M("cparse", 1, [67, 49, c])]
                for d in sorted({c, c ^ 32, c ^ 1, c ^ 64, 63, 88}):
                    sc += [M("ateq", c, d)] + ([M("cparse", 2, [67, 49, d]), M("ceq", 1, 2), M("ceq", 2, 1)] if 32 < d < 127 else [])
                out.append(sc)
            for t in range(7):
                sc = [M("cmake", 1, t, 5, 81)]
                for v in range(7):
                    sc += [M("cmake", 2, v, 5, 81), M("ceq", 1, 2), M("cmake", 2, t, v + 2, 81), M("ceq", 2, 1)]
                sc += [M("req", y, 1, z, q) for y in range(8) for z in range(8) for q in (1, 2)]
                out.append(sc)
            return out
        if self.scope != "combos": return []
        # every pair of bands, with coefficients of either sign
        bands = [(s, b) for s in FREQ for b in FREQ[s]]
        out = []
        for j, (s, b) in enumerate(bands):
            sc = []
            for k, (z, d) in enumerate(bands):
                c = [8, -8, 4, -12, 20, -3]
                sc += [M("onew", 1, [s, 0, b, 67, c[(j + k) % 6], 0], k % 2), M("ofreq", 1),
                       M("oadd", 1, [z, 1, d, 88, c[(j + 2 * k + 1) % 6], 0], j % 2), M("ofreq", 1)]
            out.append(sc)
        # coefficients of many digits (beyond single precision)
        sc = []
        for k, c in enumerate([2000000001, -800000001, 134217729, 8000003, -1073741825, 99999999, 199]):
            p = [k % 5, k % 6, 1, 67, c, 0]
            sc += [M("onew", 1, p, k % 2), M("oadd", 1, [0, 1, 1, 88, -c, 0], k % 2), M("opart", 1, 1), M("opart", 1, 2), M("oset", 1, 2, p), M("peq", 1, 1, 1, 2)]
        out.append(sc)
        # combinations that differ in one place only, whichever stands left
        for n in (1, 2, 3):
            for k in range(n):
                sc = []
                parts = [[0, 1, 1, 67, 8, 0], [3, 0, 5, 81, -4, 0], [7, 1, 1, 67, 8, 0]][:n]
                for new in [[s, 1, 1, 67, 8, 0] for s in range(8)] + [[0, t, 1, 67, 8, 0] for t in range(6)] + [[0, 1, b, 67, 8, 0] for b in range(10)] + [[0, 1, 1, c, 8, 0] for c in b"CcW?P"] + [[0, 1, 1, 67, c, 0] for c in (8, -8, 9, 0)]:
                    for reg, ps in ((1, parts), (2, parts[:k] + [new] + parts[k + 1:])):
                        sc += [M("onew", reg, ps[0], 0)] + [M("oadd", reg, p, 1) for p in ps[1:]]
                    sc += [M("oeq", 1, 2), M("oeq", 2, 1), M("peq", 1, k + 1, 2, k + 1), M("peq", 2, k + 1, 1, k + 1)]
                out.append(sc)
        return out

    def random(self, rng, tier):
        n = 250 if tier == "quick" else 3000
        out = []
        R = lambda: rng.randint(1, 3)
        M = lambda op, *a: self.concretize({"op": op, "a": list(a)})
        for _ in range(n):
            sc = []
            if self.scope == "letters":
                for _ in range(12):
                    if rng.random() < .6:
                        sc.append(M("char2sys", rng.choice(b"GRSECJIMgrsX ?") if rng.random() < .7 else rng.randint(0, 255)))
                    else:
                        sc.append(M("sys2char", rng.randint(0, 7)))
            elif self.scope == "texts":
                for _ in range(8):
                    k = rng.randint(0, 6)
                    t = [rng.choice(b"CLDSIX?0123456789 AWPQc/:-") for _ in range(k)]
                    if k >= 2 and rng.random() < .6:
                        t[0], t[1] = rng.choice(b"CLDSIX"), rng.choice(b"0123456789")
                    if rng.random() < .1:
                        t = [rng.randint(1, 255) for _ in range(k)]
                    sc.append(M("cparse", R(), t))
            elif self.scope == "codes":
                for _ in range(16):
                    k = rng.random()
                    if k < .25: sc.append(M("cparse", R(), [rng.choice(b"CLDSIX"), rng.choice(b"0159"), rng.choice(b"CXW? ")][:rng.choice([2, 3, 3])]))
                    elif k < .35: sc.append(M("cmake", R(), rng.randint(0, 6), rng.randint(0, 9), rng.choice(b"CXW?")))
                    elif k < .42: sc.append(M("cband", R(), rng.randint(0, 9)))
                    elif k < .47: sc.append(M("cattr", R(), rng.choice(b"CXW?")))
                    elif k < .52: sc.append(M("ctype", R(), rng.randint(0, 6)))
                    elif k < .62: sc.append(M("ccopy", R(), R()))
                    elif k < .75: sc.append(M("ceq", R(), R()))
                    elif k < .79: sc.append(M("cwrite", R(), *rng.choice([(1, rng.randint(0, 6)), (2, rng.randint(0, 9)), (3, rng.choice(b"CXW?"))])))
                    elif k < .81: sc.append(M("cbind", R(), rng.randint(0, 1)))
                    elif k < .83: sc.append(M("ateq", rng.choice(b"CX? "), rng.choice(b"CX? ")))
                    elif k < .86: sc.append(M("rbind", rng.randint(0, 7), R(), rng.randint(0, 7), rng.randint(0, 1)))
                    elif k < .90: sc.append(M("rstr", rng.randint(0, 7), R()))
                    else: sc.append(M("req", rng.choice([0, 3]), R(), rng.choice([0, 3]), R()))
            elif self.scope == "freq":
                for _ in range(12):
                    k = rng.random()
                    b = rng.choice([rng.randint(0, 9), rng.randint(-3, 30)])
                    if k < .7: sc.append(M("fpart", rng.randint(0, 7), b, rng.choice([1, 8, -8, 3, 16, 80, 0])))
                    elif k < .85: sc.append(M("fband", rng.choice([0, 2, 3, 4, 5, 6]), b))
                    else: sc += [M("onew", 1, self.part(rng, .3), rng.randint(0, 1)), M("ofreq", 1)]
            else:
                pool = [self.part(rng, .95) for _ in range(3)]
                if rng.random() < .5:
                    pool.append(pool[0][:4] + [pool[0][4] + rng.choice([8, 1, -1, 0, 0]), rng.choice([1, 2])])
                live, ln = set(), {}
                for _ in range(rng.randint(6, 24)):
                    r, k = R(), rng.random()
                    if r not in live or k < .15:
                        sc.append(M("onew", r, rng.choice(pool), rng.randint(0, 3))); live.add(r); ln[r] = 1
                    elif k < .5 and ln[r] < 6:
                        sc.append(M("oadd", r, rng.choice(pool), rng.randint(0, 3))); ln[r] += 1
                    elif k < .53:
                        sc.append(M("oset", r, rng.randint(1, ln[r]), rng.choice(pool)))
                    elif k < .55 and ln[r] > 1:
                        sc.append(M("odrop", r, rng.randint(1, ln[r]))); ln[r] -= 1
                    elif k < .57:
                        sc.append(M("opart", r, rng.randint(1, ln[r])))
                        q = rng.choice(sorted(live)); sc.append(M("peq", r, rng.randint(1, ln[r]), q, rng.randint(1, ln[q])))
                    elif k < .58:
                        sc.append(M("hollow", r))
                    elif k < .66:
                        q = rng.choice(sorted(live)); sc.append(M("ocopy", r, q)); ln[r] = ln[q]
                    elif k < .9:
                        q = rng.choice(sorted(live)); sc.append(M("oeq", r, q)); sc.append(M("oeq", q, r))
                    else:
                        sc.append(M("ofreq", r))
                # a shuffled copy is equal, a copy with one part exchanged is not
                ps = [rng.choice(pool) for _ in range(rng.randint(2, 5))]
                for reg, seq in ((1, ps), (2, rng.sample(ps, len(ps))), (3, ps[:-1] + [rng.choice(pool)])):
                    sc.append(M("onew", reg, seq[0], 0))
                    sc += [M("oadd", reg, p, 1) for p in seq[1:]]
                sc += [M("oeq", x, y) for x in (1, 2, 3) for y in (1, 2, 3)]
            out.append(sc)
        return out


def groups(prop):
    return {"C01": [Codes("letters")], "C02": [Codes("texts"), Codes("codes")],
            "C03": [Codes("freq")], "C04": [Codes("combos")]}[prop]
