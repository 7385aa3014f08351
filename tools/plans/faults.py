import json, os, re, zlib
import vlib
from vlib import Group, Op
import render
from plans import antex, nav, obs, sp3, bern

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls, throwing where the original throws.",
    "Per format the faults strike small valid files that exercise all records the library reads; exhaustive over the fault kinds, lines and columns (a multiple of Step) of specs/Faults_*.cfg; sequences of up to 4 faults and random bytes are seeded samples.",
    "Checked per damaged file: the process survives (address and undefined-behaviour sanitizers, terminate handler, 4 s of CPU per file), reading ends after no more calls than the file has lines, reading again after a rewind (or asking again) gives the same, and a healthy reader next to it is not affected.",
    "What a reader makes of a damaged file (data or an error) is left open here; C09-C21 pin it where the formats decide it."]
NCHARS = 16


def crc(x):
    return zlib.crc32(json.dumps(x).encode())


def templates(fmt):
    """Valid texts that exercise all the records the reader knows."""
    if fmt == "antex":
        R = lambda n, ser, d: {"k": "r", "name": list(n), "ser": list(ser), "f": [[0, 1, 100, 0, 0], [1, 2, 5, 6, 7]], "bad": 0, "d": d}
        S = lambda y, p, d, u: {"k": "s", "ty": list(b"BLOCK IIF"), "sys": y, "prn": p, "svn": 12, "cos": list(b"2010-022A"), "from": [0], "until": u, "f": [[y, 1, 1, 2, 3]], "bad": 0, "d": d}
        return [render.antex([R(b"TRM59800.00     SCIS", b"", 1), S(0, 1, 5, [100]), R(b"TRM59800.00     SCIS", b"5210", 9), S(1, 2, 1, [])]),
                render.antex([S(0, 1, 2, []), R(b"LEIAR25.R4      LEIT", b"", 1)], "v13")]
    if fmt == "nav":
        v = lambda k: [12345678 + k, -k]
        rec = lambda y, p, k, l: {"y": y, "p": p, "t": 7200 * k, "o": 0, "d": [v(j % 9) for j in range(29)], "l": l, "bad": ""}
        n = [29, 15, 29, 28, 29, 29, 29, 15]
        fit = lambda b: dict(b, d=b["d"][:nfields(b["y"])])
        return [render.nav([fit(rec(y, 1 + y % 2, k, k)) for k, y in enumerate([0, 1, 3])]),
                render.nav([fit(rec(y, 2, k, k + 4)) for k, y in enumerate([4, 5, 2, 6, 1])])]
    if fmt == "obs":
        h = dict(obs.Obs.base(), ver=303, mk=list(b"ATHN"), mn=list(b"12600S001"), rn=list(b"4711"), rt=list(b"LEICA GR25"), ant=[list(b"LEIAR25.R4      LEIT"), list(b"10211012")],
                 pos=[[4, 607500], [2, 0], [3, 1]], ecc=[[0, 0], [0, 1], [0, 2]], clk=1, first=[0, 0], decl=[[0, ["C1C", "L1C", "S1C"] + ["C2W", "L2W"] * 6], [1, ["C1C"]], [3, ["C1X", "L1X"]]], l=6)
        ep = lambda t, fl, n, l, sats: {"t": t, "u": 0, "fl": fl, "n": n, "bad": "", "l": l, "sats": [{"y": y, "p": p, "v": [[1, 20000 + j, 5] for j in range(m)]} for y, p, m in sats]}
        return [render.obs(h, [ep(0, 0, 0, 0, [(0, 1, 4), (1, 2, 1), (3, 5, 2)]), ep(30, 4, 2, 1, []), ep(60, 1, 0, 1, [(0, 12, 15), (3, 7, 1)])])]
    if fmt == "sp3":
        ep = lambda t, l, ids: {"t": t, "u": 0, "bad": "", "l": l, "recs": [{"y": y, "p": p, "v": [[12345, 678901], [-20000, 5], [7, 1], [123, 4]], "fl": [0, 3]} for y, p in ids]}
        h = dict(sp3.Sp3.base(), nsat=3, n=2)
        return [render.sp3(h, [ep(0, 0, [(0, 1), (1, 2), (3, 3)]), ep(900, 3, [(0, 1), (3, 3)])])]
    r = lambda k, s, p, c, a, z, l: {"k": k, "s": s, "p": p, "c": c, "a": a, "z": z, "bad": "", "l": l}
    return [render.bern([r(0, 730, 101, 1, 0, 100, 1), r(1, 730, 101, 3, 0, render.OPEN, 0), r(0, 730, 105, -7, 100, render.OPEN, 3), r(0, 714, 101, 6, 0, 300, 2)], "ok", 0, 1)]


def nfields(y):
    return {0: 29, 1: 15, 2: 15, 3: 28, 4: 29, 5: 29, 6: 29, 7: 29}[y]


FORMATS = {"antex": antex.Antex, "nav": nav.Nav, "obs": obs.Obs, "sp3": sp3.Sp3, "bern": bern.Bern}


def shapes(text):
    """The lines as the model sees them (specs/FaultsMC.tla)."""
    out, seen = [], {}
    for l in text.split("\n")[:-1]:
        k = re.sub("[0-9]", "9", re.sub(" +", " ", l))
        seen[k] = seen.get(k, 0) + 1
        kind = lambda c: 0 if c == " " else 1 if c.isdigit() else 2
        first = seen[k] <= 1
        marks = [n for n in range(len(l)) if n < 4 or kind(l[n]) != kind(l[n - 1])][:60]
        words = [[m.start(), len(m.group())] for m in re.finditer("[^ ]+", l)][:30]
        out.append({"len": len(l), "marks": marks if first else [], "words": words if first else []})
    return out


class Faults(Group):
    queries = frozenset(["damage"])

    def __init__(self, fmt):
        cls = FORMATS[fmt]
        self.fmt, self.name = fmt, "faults-" + fmt
        self.harness, self.sources, self.trace = cls.harness, cls.sources, cls.trace
        self.inner = cls({"antex": "hist", "nav": "seq", "obs": "epo", "sp3": "seq", "bern": "query"}[fmt])
        self.texts = templates(fmt)
        self.models = {"quick": [], "thorough": []}
        self.paths = []
        for t, text in enumerate(self.texts):
            lens = shapes(text)
            d = os.path.join(vlib.BUILD, "faults")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s%d.ndjson" % (fmt, t))
            self.paths.append(os.path.join(d, "%s%d.txt" % (fmt, t)))
            for path, content in ((p, json.dumps(lens) + "\n"), (self.paths[-1], text)):
                with open(path + ".%d" % os.getpid(), "w", encoding="latin-1") as f:
                    f.write(content)
                os.replace(path + ".%d" % os.getpid(), path)
            for tier, cfgs in (("quick", ["one_quick"]), ("thorough", ["one_deep", "two_deep"])):
                for c in cfgs:
                    self.models[tier].append(("FaultsMC", "Faults_%s.cfg" % c, {"workers": 4, "heap": "8g", "env": {"LINES": p, "T": str(t)}}))
        self.turn = 0

    def damage(self, t, faults):
        return Op("damage", t, faults, h=[self.paths[t]] + [" ".join(map(str, f)) for f in faults])

    def concretize(self, x):
        return self.damage(int(x["t"]), x["a"])

    # a healthy reader, the damaged files, and the healthy reader again
    def good(self):
        i = self.inner.concretize
        if self.fmt == "antex":
            b = {"k": "r", "name": list(b"TRM59800.00     SCIS"), "ser": [], "f": [[0, 1, 100, 0, 0]], "bad": 0, "d": 0}
            return [i({"op": "load", "a": [1, 0, 1, [b]]})], [i({"op": "rec", "a": [list(b"TRM59800.00     SCIS"), [], 0]})]
        if self.fmt == "nav":
            rec = lambda p: {"y": 1, "p": p, "t": 0, "o": 0, "d": [[1, 0]] * 15, "l": 0, "bad": ""}
            return [i({"op": "load", "a": [0, [rec(1), rec(2)]]}), Op("read")], [Op("read"), Op("read")]
        if self.fmt == "obs":
            h = dict(obs.Obs.base(), decl=[[0, ["C1C"]]])
            e = {"t": 30, "u": 0, "fl": 0, "n": 0, "bad": "", "l": 0, "sats": [{"y": 0, "p": 5, "v": [[1, 5, 5]]}]}
            return [i({"op": "load", "a": [0, h, [e, dict(e, t=60)]]}), i({"op": "request", "a": [[[0, [[[0, "C1C", 4]]]]], True]}), Op("next")], [Op("next"), Op("next")]
        if self.fmt == "sp3":
            e = {"t": 0, "u": 0, "bad": "", "l": 0, "recs": [{"y": 0, "p": 1, "v": [[1, 1], [2, 2], [3, 3], [4, 4]], "fl": []}]}
            return [i({"op": "load", "a": [0, sp3.Sp3.base(), [e, dict(e, t=900)], 0]}), Op("next")], [Op("next"), Op("next")]
        r = {"k": 0, "s": 730, "p": 101, "c": 1, "a": 0, "z": render.OPEN, "bad": "", "l": 0}
        return [i({"op": "load", "a": [0, [r]]})], [i({"op": "query", "a": [730, 50]})]

    def finish(self, scenario):
        a, b = self.good()
        return a + scenario + b

    def random(self, rng, tier):
        out = []
        for _ in range(25 if tier == "quick" else 250):
            sc = []
            for _ in range(20):
                t = rng.randrange(len(self.texts))
                n = self.texts[t].count("\n")
                fs = []
                for _ in range(rng.randint(1, 4)):
                    i = rng.randint(1, max(1, n))
                    l = (self.texts[t].split("\n") + [""])[i - 1]
                    c = rng.randint(0, max(0, len(l) - 1))
                    fs.append(rng.choice([["cut", i, c], ["drop", i], ["double", i], ["swap", i], ["short", i, c], ["long", i, rng.randrange(4)],
                                          ["char", i, c, rng.randrange(NCHARS)], ["char", i, c, rng.randrange(NCHARS)], ["shift", i, c, rng.randint(1, 9)], ["fill", i, c, rng.randint(1, 20), rng.randrange(NCHARS)], ["insert", i, rng.randrange(4)]]))
                sc.append(self.damage(t, fs))
            # random bytes behind a valid beginning, and nothing but random bytes
            t = rng.choice(self.texts)
            k = rng.choice([0, 1, rng.randrange(len(t)), rng.randrange(len(t))])
            alphabet = rng.choice(["0123456789 .-+ED\n", "".join(map(chr, range(256))), " \n", "GRE*P> 0123456789\n"])
            s = t[:k] + "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 3000)))
            sc.append(Op("damage", -1, [], h=["=", s]))
            out.append(self.finish(sc))
        return out

    def signature(self, m):
        for o in m["scenario"]:
            if o["op"] == m["op"]:
                return m["op"]
        return m["op"]


def groups(prop):
    return {"C23": [Faults(f) for f in FORMATS]}[prop]
