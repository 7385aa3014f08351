import json, math, zlib
from vlib import Group, Op

ASSUMPTIONS = [
    "Eigen is the installed one (/usr/include/eigen3).",
    "The state is observed through print_state(): millimetres. The coefficient given to the constructor is 1 (its default).",
    "Satellites are so far away that their directions do not depend on the receiver's place, or at any distance while the receiver is at the origin of the scenario; directions are Pythagorean. Linearization for measurements that move the receiver by more than the tolerance is not decided.",
    "Updates without weights are decided for up to four satellites well apart from each other (the equations do not determine more). The standard deviations before the first update are left open.",
    "The specification takes measurements in one after the other in fixed-point numbers and carries a bound for its rounding errors; results are compared within that bound (a few millimetres)."]
C = 299792458.
ORIGINS = [(4595220, 2039434, 3912625), (0, 0, 0), (-2700000, -4290000, 3850000)]


def sat(s, unit=1):
    a, b, c, n = s["u"]
    if unit != 1:
        assert s["k"] == 0
        sv3 = s["j"] * 1e-6
        return [repr(a * 2e13), repr(b * 2e13), repr(c * 2e13), repr(n * 2e13 + s["z"] / 1e3 * unit - C * sv3), repr(sv3), repr(s["w"] / 100.)]
    # near: 7 -> 21000 km or so, 1 -> some hundred metres
    scale = {0: 2e9, 7: 3e6 * (7 // n + 1), 1: 100.}[s["k"]]
    sv3 = s["j"] * 1e-6
    return [repr(a * scale), repr(b * scale), repr(c * scale), repr(n * scale + s["z"] / 1e3 - C * sv3), repr(sv3), repr(s["w"] / 100.)]


class Kalman(Group):
    harness = "kalman"
    sources = ()
    trace = ("KalmanTrace", "KalmanTrace.cfg")
    queries = frozenset(["show"])

    def __init__(self, scope):
        self.scope, self.name = scope, "kalman-" + scope
        self.models = {"quick": [("KalmanMC", "Kalman_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("KalmanMC", "Kalman_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}
        self.o = ORIGINS[0]
        self.unit = 1       # of lengths and clocks in the scenario [m]: the covariance does not depend on them

    def concretize(self, x):
        op, a = x["op"], x["a"]
        z = zlib.crc32(json.dumps(x).encode())
        if op == "new":
            return Op(op, *a, h=[a[0]] + [v * self.unit for v in a[1]] + list(self.o) + [z % 2, self.unit])
        if op == "upd":
            return Op(op, *a, h=[a[0], repr(a[1] / 2.), a[3], [0, 0, 1, 6][z % 4]] + sum((sat(s, self.unit) for s in a[2]), []))
        if op == "copy":
            return Op(op, *a, h=a + [z % 2])
        return Op(op, *a)

    def fixed(self, tier):
        # a filter at work: many epochs of the same satellites
        if self.scope != "hist": return []
        out = []
        for o in ORIGINS:
            self.o = o
            for h2, w in ((2, 0), (60, 3000), (0, -9900), (1, 100000)):
                sc = [self.concretize({"op": "new", "a": [1, [3, -4, 12, 2000, 0]]})]
                for k in range(12):
                    ss = [{"u": u, "z": 1000 * (k % 3) * (1 if i % 2 else -1), "j": 100 * (i - 3), "w": w, "k": 0}
                          for i, u in enumerate(([2, 3, 6, 7], [-6, 2, 3, 7], [1, -2, 2, 3], [0, 0, 1, 1], [-4, -4, 7, 9], [4, 0, 3, 5]))]
                    sc.append(self.concretize({"op": "upd", "a": [1, h2, ss, True]}))
                out.append(sc)
                # a receiver that is lost: hundreds of kilometres off
                self.unit = 1000
                sc = [self.concretize({"op": "new", "a": [1, [3, -4, 12, 2000, 1]]})]
                for k in range(6):
                    sc.append(self.concretize({"op": "upd", "a": [1, h2, [dict(s, z=2000000 + (k < 5) * s["z"] * 3000) for s in ss], True]}))
                out.append(sc)
                self.unit = 1
        # noise alone, many times, on filters that are certain and uncertain
        self.o = ORIGINS[0]
        four = [{"u": u, "z": 0, "j": 0, "w": 0, "k": 0} for u in ([1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1], [-1, 0, 0, 1])]
        for first in ([], [[four, False]], [[four, True]], [[[dict(s, w=-9990) for s in four], True]]):
            for w in (True, False):
                sc = [self.concretize({"op": "new", "a": [1, [3, -4, 12, 2000, 0]]})]
                for ss, ww in first + [[[], w]] * 60:
                    sc.append(self.concretize({"op": "upd", "a": [1, 0, ss, ww]}))
                out.append(sc)
                # ... and then a measurement far off: what the noise has tied together moves together
                for n in (1, 5, 20, 40):
                    for z in (9000000, -4000000):
                        out.append(sc[:1 + len(first) + n] + [self.concretize({"op": "upd", "a": [1, 0, [dict(four[0], z=z)], True]}), Op("show", 1)])
        # as many satellites as there are, weights of all sizes
        dirs = [[2, 3, 6, 7], [-6, 2, 3, 7], [1, -2, 2, 3], [0, 0, 1, 1], [-4, -4, 7, 9], [4, 0, 3, 5], [-3, 0, 4, 5], [0, 1, 0, 1], [6, 6, 7, 11], [2, -3, 6, 7], [-2, 1, 2, 3],
                [1, 4, 8, 9], [8, -1, 4, 9], [0, -4, 3, 5], [12, 3, 4, 13], [-3, 12, 4, 13], [4, -12, 3, 13], [-1, 0, 0, 1], [3, 4, 0, 5], [2, 6, 9, 11], [-9, 2, 6, 11], [6, -9, 2, 11]]
        for n in (11, 12, 13, 14, 16, 17, 20, 22):
            for w in ([0], [3000000, 0, 200], [4000000], [700000, 90000, -9000], [100001, 99999, 5000000]):
                sc = [self.concretize({"op": "new", "a": [1, [3, -4, 12, 2000, 0]]})]
                for h2 in (2, 0):
                    sc.append(self.concretize({"op": "upd", "a": [1, h2, [{"u": u, "z": 2000000 + 7000 * (i % 5), "j": 10 * (i - 3), "w": w[i % len(w)], "k": 0} for i, u in enumerate(dirs[:n])], True]}))
                out.append(sc)
        self.o = ORIGINS[0]
        return out

    def random(self, rng, tier):
        if self.scope != "two": return []
        dirs = []
        for n in (1, 3, 5, 7, 9, 11, 13):
            for a in range(-n, n + 1):
                for b in range(-n, n + 1):
                    r = n * n - a * a - b * b
                    if r >= 0 and math.isqrt(r) ** 2 == r and math.gcd(math.gcd(a, b), n) == 1:
                        dirs += [[a, b, math.isqrt(r), n], [a, b, -math.isqrt(r), n]]
        out = []
        for _ in range(400 if tier == "quick" else 8000):
            self.o = rng.choice(ORIGINS)
            sc = []
            have = set()
            c0 = rng.choice([0, rng.randint(-50000, 50000)])
            for f in rng.sample([1, 2], rng.randint(1, 2)):
                near = rng.random() < .4
                sc.append(self.concretize({"op": "new", "a": [f, ([0] * 3 if near else [rng.randint(-90, 90) for _ in range(3)]) + [c0, rng.randint(-3, 3)]]}))
                have.add(f)
            for _ in range(rng.randint(1, 6)):
                f = rng.choice(sorted(have))
                q = rng.random()
                if q < .1:
                    g = 3 - f
                    sc.append(self.concretize({"op": "copy", "a": [f, g]}))
                    have.add(g)
                elif q < .15:
                    sc.append(self.concretize({"op": "show", "a": [f]}))
                else:
                    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 15, 20])
                    k = rng.choice([0, 0, 0, 1, 7])
                    big = rng.choice([0, 1000, 30000, 100000])
                    ss = [{"u": u, "z": 1000 * c0 + rng.randint(-big, big), "j": rng.choice([0, 0, rng.randint(-500, 500)]),
                           "w": rng.choice([0, rng.randint(-9500, 90000), rng.randint(0, 90000), rng.randint(0, 5000000)]), "k": k} for u in (rng.choice(dirs) for _ in range(n))]
                    sc.append(self.concretize({"op": "upd", "a": [f, rng.choice([0, 2, 60, 1, -4, rng.randint(0, 60)]), ss, n > 4 or rng.random() < .8]}))
            out.append(sc)
        self.o = ORIGINS[0]
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C22": [Kalman(s) for s in ("one", "hist", "two")]}[prop]
