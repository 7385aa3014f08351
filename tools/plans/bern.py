import json, zlib
from vlib import Group, Op
import render

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Files are rendered from abstract records: other sensors between them, signal lists of any length, blanks kept or dropped at line ends, 0-2000 lines in part 1, part 3 or the end of the file behind the records.",
    "Where several records of a satellite are valid at an epoch any of them may be reported.",
    "Exhaustive over all files and query sequences within the constants of specs/BernMC.tla; larger ones are seeded samples."]
REFUSED = ["first", "nopart2", "h1", "h2", "empty", "missing"]


def crc(x):
    return zlib.crc32(json.dumps(x).encode())


class Bern(Group):
    harness = "bern"
    sources = ("bern_utils.cpp",)
    trace = ("BernTrace", "BernTrace.cfg")
    queries = frozenset({"query"})
    turn = 0

    def __init__(self, scope):
        self.scope, self.name = scope, "bern-" + scope
        self.models = {"quick": [("BernMC", "Bern_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("BernMC", "Bern_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}

    def concretize(self, x, parts=None):
        op, a = x["op"], x["a"]
        if op == "load":
            how, rs = a
            n = crc(a)
            if how:
                kind = REFUSED[(n + self.turn) % len(REFUSED)]
                self.turn += 1
                return Op(op, 1, [], h=[1 if kind == "missing" else 2, render.bern(rs, kind)])
            return Op(op, *a, h=[0, render.bern(rs, "ok", n % 4, parts if parts is not None else n // 4 % 8)])
        if op == "move":
            return Op(op, *a, h=[a[0], render.bern([])])
        if op == "query":
            return Op(op, *a, h=[a[0], render.epoch(a[1]).strftime("%Y %m %d"), a[1] % 86400])
        return Op(op, *a)

    def random(self, rng, tier):
        out = []
        Y = 366 * 86400
        for _ in range({"query": 150, "val": 100, "move": 60}[self.scope] * (1 if tier == "quick" else 15)):
            n = rng.choice([0, 1, 2, 5, 10, 30, 100, rng.choice([100, 1005, 1500])])
            svns = [rng.randint(1, 999) for _ in range(max(1, n // 3))]
            rs = []
            for _ in range(n):
                a = rng.choice([0, 1, -1, 86400, -30 * Y, rng.randint(-30 * Y, 30 * Y)])
                z = rng.choice([render.OPEN, a + 1, a + rng.randint(1, 20 * Y)])
                rs.append({"k": int(rng.random() < .3), "s": rng.choice(svns), "p": rng.randint(1, 999), "c": rng.randint(-7, 6), "a": a, "z": z,
                           "bad": rng.choice(["svn", "start", "stop", "chan", "short"]) if rng.random() < .1 / max(1, n) else "", "l": rng.randrange(60)})
            sc = [self.concretize({"op": "load", "a": [0, rs]}, rng.choice([0, 0, 1, 5, 50, 999, 1100, 2000]))]
            for _ in range(rng.randint(3, 20)):
                r = rng.random()
                if r < .85:
                    x = rng.choice(rs + [rs[-1]]) if rs else {"s": 5, "a": 0, "z": 5}
                    sc.append(self.concretize({"op": "query", "a": [rng.choice([x["s"]] * 6 + [rng.randint(0, 1000)]),
                                                                   rng.choice([x["a"], x["a"] - 1, x["a"] + 1, x["z"] if x["z"] != render.OPEN else x["a"], x["z"] - 1 if x["z"] != render.OPEN else x["a"] + 5 * Y, rng.randint(-40 * Y, 40 * Y)])]}))
                elif r < .9: sc.append(Op("errno"))
                elif self.scope == "move": sc.append(self.concretize({"op": "move", "a": [rng.randrange(3)]}))
                else: sc.append(self.concretize({"op": "load", "a": [1, []]}))
            out.append(sc)
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C21": [Bern("query"), Bern("val")]}[prop]
