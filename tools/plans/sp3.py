import json, zlib
from vlib import Group, Op
import render

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Header facts without accessor are read from the public print_members (debug build).",
    "Files are rendered from abstract headers and epochs: 5 or more satellite rows, 0-200 comments (version d), accuracy columns filled or blank, trailing blanks kept or dropped, velocity and correlation records in between.",
    "Epochs are whole microseconds.",
    "Exhaustive over all files and call sequences within the constants of specs/Sp3MC.tla; larger ones are seeded samples.",
    "After an epoch that cannot be read the position is unspecified until the next rewind; a file without EOF record may end with or without its last epoch."]
REFUSED = ["version", "date", "sow", "mjd", "frac", "nosat", "noacc", "noc", "nof", "noi", "empty", "missing", "velocity",
           "week1", "week-1", "week1024", "week-1024", "half", "frac0.5", "mjd-1"]
# every mark of a header line (but the version's letter) and every number that is needed
REFUSED += ["mark:%s:%d" % (m, c) for m in ("##", "+", "++", "%c", "%C", "%f", "%F", "%i", "%I") for c in (0, 1)] + ["mark:#:0", "mark:/*:1"]
REFUSED += ["num:0:%d:%d" % (a, a + w) for a, w in ((3, 4), (8, 2), (11, 2), (14, 2), (17, 2), (32, 7))] + ["num:1:3:7", "num:1:39:44", "num:2:3:6"]


def crc(x):
    return zlib.crc32(json.dumps(x).encode())


class Sp3(Group):
    harness = "sp3"
    sources = ("sp3c.cpp", "satsys.cpp", "nvarstr.cpp")
    trace = ("Sp3Trace", "Sp3Trace.cfg")
    turn = 0

    def __init__(self, scope):
        self.scope, self.name = scope, "sp3-" + scope
        self.models = {"quick": [("Sp3MC", "Sp3_%s_quick.cfg" % scope, {"workers": 4})],
                       "thorough": [("Sp3MC", "Sp3_%s_deep.cfg" % scope, {"workers": 6, "heap": "12g"})]}

    def concretize(self, x):
        op, a = x["op"], x["a"]
        if op == "load":
            how, h, es, tail = a
            if how:
                kind = REFUSED[(crc(a) + self.turn) % len(REFUSED)]
                if kind == "mark:/*:1" and h["ver"]: kind = "mark:%i:0"
                self.turn += 1
                return Op(op, 1, {}, [], 0, h=[1 if kind == "missing" else 2, render.sp3(h, es, kind)])
            return Op(op, *a, h=[0, render.sp3(h, es, "ok", tail)])
        if op == "move":
            return Op(op, *a, h=[a[0], render.sp3(self.base(), [])])
        return Op(op, *a)

    @staticmethod
    def base():
        return {"ver": 0, "t": 0, "u": 0, "n": 1, "crd": [73], "orb": [70], "ag": [73], "ts": [71, 80, 83], "int": [900, 0], "nsat": 1, "l": 0}

    def fixed(self, tier):
        out = []
        if self.scope != "head": return out
        # start epochs whose fraction of the day is rounded across a bit
        for us in range(100):
            h = dict(self.base(), t=70214460 + us, u=(101616 + 9973 * us) % 10 ** 6, l=us % 6)
            out.append([self.concretize({"op": "load", "a": [0, h, [], 0]}), Op("head")])
        for sod in range(0, 86400, 30 if tier == "thorough" else 300):
            h = dict(self.base(), t=sod + 86400 * (sod // 300), l=sod % 6)
            out.append([self.concretize({"op": "load", "a": [0, h, [], 0]}), Op("head")])
        for k, kind in enumerate(REFUSED):
            for l in range(6):
                h = dict(self.base(), l=l + 6 * k, ver=0 if kind == "mark:/*:1" else l % 2)
                out.append([Op("load", 1, {}, [], 0, h=[1 if kind == "missing" else 2, render.sp3(h, [], kind)]), Op("head"),
                            self.concretize({"op": "load", "a": [0, h, [], 0]}), Op("head")])
        return out

    def random(self, rng, tier):
        out = []
        t = lambda n: [rng.randint(65, 90) for _ in range(rng.randint(1, n))]
        for _ in range({"head": 120, "seq": 120, "val": 100, "move": 60}[self.scope] * (1 if tier == "quick" else 15)):
            ver = rng.randrange(2)
            h = {"ver": ver, "t": rng.randint(-4 * 10 ** 8, 4 * 10 ** 8), "u": rng.choice([0, 0, 10000 * rng.randrange(100), rng.randrange(10 ** 6)]), "n": rng.choice([rng.randint(1, 9999), rng.randint(1, 9999999)]), "crd": t(5), "orb": t(3), "ag": t(4), "ts": t(3),
                 "int": [rng.randint(1, 99999), rng.choice([0, 0, 1, 999999, rng.randrange(10 ** 6)])], "nsat": rng.choice([1, 5, 32, 60, 85] + ver * [86, 120, 400]), "l": rng.randrange(60)}
            es, at = [], h["t"]
            for _ in range(0 if self.scope == "head" else rng.choice([0, 1, 2, 4, 8])):
                at += rng.choice([30, 300, 900])
                ids = rng.sample([(y, p) for y in (0, 1, 2, 3, 4, 5, 6) for p in range(1, 100)], rng.choice([0, 1, h["nsat"], rng.randint(0, h["nsat"])]))
                v = lambda: list(divmod(rng.choice([0, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-99999 * 10 ** 6, 10 ** 12 - 1)]), 10 ** 6))
                es.append({"t": at, "u": rng.choice([0, 0, 0, rng.randrange(10 ** 6)]), "bad": "", "l": rng.randrange(60),
                           "recs": [{"y": y, "p": p, "v": [v(), v(), v(), [999999, 999999] if rng.random() < .1 else v()],
                                     "fl": [k for k in range(4) if rng.random() < .2]} for y, p in ids]})
            if es and self.scope == "seq" and rng.random() < .3:
                b = rng.choice(es)
                if b["recs"]: b["bad"] = rng.choice(["mark", "date", "sat", "num", "blank", "many", "prn", "noprn", "short", "mark1", "long", "t%d" % rng.randrange(6)])
            sc = [self.concretize({"op": "load", "a": [0, h, es, rng.choice([0, 0, 0, 1, 2, 3])]})]
            if self.scope == "head":
                sc += [Op("head"), self.concretize({"op": "load", "a": [1, h, es, 0]}), Op("head")]
            else:
                for _ in range(rng.randint(3, 20)):
                    r = rng.random()
                    if r < .75: sc.append(Op("next"))
                    elif r < .85: sc.append(Op("rewind"))
                    elif r < .9: sc.append(Op("errno"))
                    elif self.scope == "move": sc.append(self.concretize({"op": "move", "a": [rng.randrange(3)]}))
                    else: sc.append(Op("head"))
            out.append(sc)
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C20": [Sp3("head"), Sp3("seq"), Sp3("val")]}[prop]
