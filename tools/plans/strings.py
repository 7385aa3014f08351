from vlib import Group, Op

ASSUMPTIONS = ["Texts are NUL-terminated and handed over in exactly sized buffers (ASan notices any over-read).",
               "Numbers are written with three decimals and compared in thousandths.",
               "Exhaustive within the constants of specs/StringsMC.tla; longer texts are seeded samples."]


def field(f, m, k):
    kind, v = f
    s = ("-" if v < 0 else "") + "%d.%03d" % (abs(v) // 1000, abs(v) % 1000)
    if kind == 0:
        how = (abs(v) // 7 + 3 * k + m) % 6
        if m == 19 and k % 2:
            s = ("%.9E" % (v / 1000.0))
        elif how == 1 and len(s) < m and v >= 0: s = "+" + s
        elif how == 2 and abs(v) < 1000: s = s.replace("0.", ".", 1)
        elif how == 3: return s.ljust(m)
        elif how == 4: return s.center(m)
        elif how == 5 and m > 14: s = "%de-3" % v if k % 2 else "%dE-03" % v
        return s.rjust(m)
    if kind == 1: return " " * m
    if kind == 2: return "abc".rjust(m)
    if kind == 3: return ""
    if kind == 5: return "-9.9E+999"[k % 2:].rjust(m)
    return (s + "xy").rjust(m)


class Strings(Group):
    name = "strings"
    harness = "strings"
    sources = ("nvarstr.cpp",)
    trace = ("StringsTrace", "StringsTrace.cfg")
    queries = frozenset("rtrims rtrime ltrim empty nums year".split())
    models = {"quick": [("StringsMC", "Strings_quick.cfg", {})],
              "thorough": [("StringsMC", "Strings_deep.cfg", {"heap": "8g"})]}

    def concretize(self, x):
        a = x["a"]
        if x["op"] == "nums":
            m, fs = a
            line = "".join(field(f, m, k) for k, f in enumerate(fs))
            return Op("nums", *a, h=[m, len(fs), line, sum(abs(f[1]) for f in fs) // 250 % 2])
        return Op(x["op"], *a)

    def random(self, rng, tier):
        out = []
        M = lambda op, *a: self.concretize({"op": op, "a": list(a)})
        for _ in range(300 if tier == "quick" else 4000):
            n = rng.choice([0, 1, 2, 5, 9, 20, 60, 80, 81])
            t = [32 if rng.random() < .4 else rng.choice(b"ABDdEe019.+-\t_") for _ in range(n)]
            if rng.random() < .3:
                for k in range(rng.randint(0, n), n): t[k] = 32
            sc = [M("set", t)]
            for _ in range(10):
                s = rng.choice([-1, 0, 1, n - 1, n, n + 1, n + 40, rng.randint(0, 90)])
                sc.append(M(rng.choice(["rtrims", "rtrime", "ltrim", "empty"]), max(-1, s)))
            sc += [M("for2cpp"), M("rtrime", -1), M("for2cpp")]
            m = rng.choice([10, 14, 19])
            fs = [[0, rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.randint(10 ** 8, 10 ** 9 - 1)])] if rng.random() < .93 else [rng.choice([1, 2, 4, 5]), 5000] for _ in range(rng.randint(1, 4))]
            if rng.random() < .1: fs[-1] = [3, 0]
            sc += [M("nums", m, fs), M("year", rng.randint(0, 99))]
            out.append(sc)
        return out


def groups(prop):
    return [Strings()]
