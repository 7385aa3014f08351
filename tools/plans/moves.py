from vlib import Group, Op
import render
from plans import antex, nav, obs, sp3, bern

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "Exhaustive over all histories of opening up to 3 files, moving (construction, assignment), reading, rewinding and destroying objects up to the depth of specs/Moves_all_*.cfg, for each of the five readers; longer ones are seeded samples.",
    "Leaks are allocations made through operator new inside calls on reader objects that are left when all objects are destroyed; double and early releases are seen by the address sanitizer and by what the readers answer.",
    "Moving an object onto itself is not covered."]
LEN = [0, 2, 3, 1]
Z9 = [0, 0]


def text(kind, f, ok=True):
    n = LEN[f]
    if kind == 0:
        r = {"k": "r", "name": list(b"TRM59800.00     SCIS"), "ser": [], "f": [[0, 1, 1000 * f + 100, 0, 0]], "bad": 0, "d": f}
        s = {"k": "s", "ty": list(b"BLOCK IIF"), "sys": 0, "prn": f, "svn": 1, "cos": [], "from": [0], "until": [], "f": [[0, 1, 1, 2, 3]], "bad": 0, "d": 0}
        return render.antex([r, s] if f != 2 else [s, r], ("v13" if f == 3 else "ok") if ok else "noend", True, f * 5)
    if kind == 1:
        recs = [{"y": 0, "p": 10 * f + k, "t": 7200 * k, "o": 0, "d": [Z9] * 29, "l": f, "bad": ""} for k in range(1, n + 1)]
        return render.nav(recs, "ok" if ok else "noend", True, f * 3)
    if kind == 2:
        h = dict(obs.Obs.base(), mk=list(b"SITE%d" % f), pos=[[f, 0], [5, f], [f, f]], first=[f, 0], decl=[[0, ["S1C", "L1C", "C2W", "L2W", "S2W", "D1C"][:2 * f - 1] + ["C1C"]]], clk=f % 2, l=f)
        es = [{"t": 30 * k, "u": 0, "fl": 0, "n": 0, "bad": "", "l": f + k,
               "sats": [{"y": 0, "p": 10 * f + k, "v": [[1, 0, 5]] * (2 * f - 1) + [[1, 10 * f + k, 0]]}]} for k in range(1, n + 1)]
        return render.obs(h, es, "ok" if ok else "noend")
    if kind == 3:
        h = dict(sp3.Sp3.base(), nsat=f * 7, n=n, crd=list(b"IGS%02d" % f), int=[300 * f, 0], l=f, ver=f % 2)
        es = [{"t": 900 * k, "u": 0, "bad": "", "l": 0, "recs": [{"y": 0, "p": 10 * f + k, "v": [[1, 1], [2, 2], [3, 3], [4, 4]], "fl": []}]} for k in range(1, n + 1)]
        return render.sp3(h, es, "ok" if ok else "noc")
    r = {"k": 0, "s": 730, "p": 10 * f + 1, "c": f, "a": 0, "z": render.OPEN, "bad": "", "l": f}
    return render.bern([r], "ok" if ok else "h2", f % 2, f * 4)


class Moves(Group):
    harness = "moves"
    sources = tuple(sorted(set(antex.Antex.sources + nav.Nav.sources + obs.Obs.sources + sp3.Sp3.sources + bern.Bern.sources)))
    trace = ("MovesTrace", "MovesTrace.cfg")
    name = "moves"
    models = {"quick": [("MovesMC", "Moves_all_quick.cfg", {"workers": 4})],
              "thorough": [("MovesMC", "Moves_all_deep.cfg", {"workers": 6, "heap": "12g"})]}
    cache = {}

    def concretize(self, x):
        op, a = x["op"], x["a"]
        if op == "kind":
            k = a[0]
            if k not in self.cache:
                self.cache[k] = [text(k, f) for f in (1, 2, 3)] + [text(k, 1, False)]
            return Op(op, k, h=[k] + self.cache[k])
        return Op(op, *a)

    def random(self, rng, tier):
        out = []
        for _ in range(400 if tier == "quick" else 6000):
            kind = rng.randrange(5)
            sc = [self.concretize({"op": "kind", "a": [kind]})]
            st = {1: None, 2: None, 3: None}
            for _ in range(rng.randint(5, 30)):
                free = [i for i in st if st[i] is None]
                live = [i for i in st if st[i] == "r"]
                there = [i for i in st if st[i]]
                op = rng.choice("new movec movec movea movea movea use use use use same rewind del fail".split())
                if op == "new" and free:
                    i = rng.choice(free); sc.append(Op("new", i, rng.randint(1, 3))); st[i] = "r"
                elif op == "fail" and free: sc.append(Op("fail", rng.choice(free)))
                elif op == "movec" and free and live:
                    i, j = rng.choice(free), rng.choice(live); sc.append(Op(op, i, j)); st[i], st[j] = "r", "m"
                elif op == "movea" and live and len(there) > 1:
                    j = rng.choice(live); i = rng.choice([k for k in there if k != j]); sc.append(Op(op, i, j)); st[i], st[j] = "r", "m"
                elif op == "del" and there:
                    i = rng.choice(there); sc.append(Op(op, i)); st[i] = None
                elif op in ("use", "same") and live: sc.append(Op(op, rng.choice(live)))
                elif op == "rewind" and live and kind in (1, 2, 3): sc.append(Op(op, rng.choice(live)))
            for i in st:
                if st[i] == "r": sc += [Op("same", i), Op("use", i)]
            out.append(sc + [Op("leak")])
        return out

    def signature(self, m):
        return m["op"]


def groups(prop):
    return {"C24": [Moves(), antex.Antex("move"), nav.Nav("move"), obs.Obs("move"), sp3.Sp3("move"), bern.Bern("move")]}[prop]
