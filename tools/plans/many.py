import atexit, json, os, random, subprocess, tempfile
import vlib
from vlib import Group, Op
from plans import antennas, antex, bern, codes, moves, nav, navorbit, obs, sp3, strings

ASSUMPTIONS = [
    "ggdatetime is not available offline; /verif/shim supplies the calendar arithmetic the library calls.",
    "A reader object is used by one thread; different objects may be used by different threads at the same time (what C++ libraries promise unless they say otherwise).",
    "Exhaustive over the interleavings of two or three programs of 4 (deep: 5) calls for each pair of kinds; programs and longer interleavings are seeded samples.",
    "Concurrent calls are executed under the thread sanitizer, which reports unsynchronised accesses whatever the timing of the run.",
    "Printing of headers (it goes to std::cout) is left out of concurrent runs."]
READERS = "anosb"
BASE = {"a": [antex.Antex("hist")], "n": [nav.Nav("seq"), nav.Nav("val")], "o": [obs.Obs("epo"), obs.Obs("req")], "s": [sp3.Sp3("seq")], "b": [bern.Bern("query")],
        "c": [codes.Codes(s) for s in ("letters", "texts", "codes", "freq", "combos")], "t": [antennas.Antennas(s) for s in ("names", "serials", "satant", "sats")],
        "x": [strings.Strings()], "e": [navorbit.Orbit("mix")]}
LOCAL = {"n": ("read", "skip", "peek"), "o": ("next",), "s": ("next",)}


def on(who, op, place=None):
    return Op("on", who, op["op"], op["a"], h=[who, (place or who) + ".", op["op"]] + op.h)


def size(s):
    return sum(len(x) for o in s for x in o.h if isinstance(x, (str, bytes, list)))


def mixed(rng, n, par):
    """Long programs of two to four (threads: up to six) readers, merged at random."""
    pool = {k: [s for g in gs for s in g.random(rng, "quick") if size(s) < 150000 and (k not in READERS or s[0]["op"] == "load")] for k, gs in BASE.items()}
    # files with something in them
    rich = {k: [s for s in p if len(json.dumps(s[0]["a"])) > {"a": 300, "n": 600, "o": 1500, "s": 600, "b": 200}.get(k, 0)] for k, p in pool.items()}
    out = []
    for _ in range(n):
        k = rng.choice(READERS + READERS + "ctxe")
        who = [k + "1", k + "2"] if rng.random() < .8 else [k + rng.choice("12")]
        for _ in range(rng.choice([0, 0, 1, 2] if not par else [0, 1, 2, 4])):
            w = rng.choice(READERS + "ctxe") + rng.choice("12")
            if w not in who:
                who.append(w)
        progs, place = {}, {}
        for w in who:
            progs[w] = list(rng.choice((pool if rng.random() < .2 else rich)[w[0]]))
            if par:
                progs[w] = [o for o in progs[w] if not (w[0] in "os" and o["op"] == "head")]
        if k in READERS and len(who) > 1 and who[0][0] == who[1][0] and rng.random() < .35:   # the same file twice
            p, q = progs[who[0]], progs[who[1]]
            progs[who[0]] = [p[0]] + [o for o in p[1:] if o["op"] != "load"]
            progs[who[1]] = [p[0]] + [o for o in (q if k == "b" else p)[1:] if o["op"] != "load"][rng.randrange(3):]
            if not par:
                place[who[0]] = place[who[1]] = "x"
        sc, at = [Op("par")] if par else [], {w: 0 for w in who}
        burst = rng.choice([1, 1, 2, 4])
        while True:
            left = [w for w in who if at[w] < len(progs[w])]
            if not left:
                break
            w = rng.choice(left)
            for _ in range(rng.randint(1, burst)):
                if at[w] < len(progs[w]):
                    sc.append(on(w, progs[w][at[w]], place.get(w)))
                    at[w] += 1
        out.append(sc)
    return out


def small(s, n):
    """A successful load of a file that is not trivial, and calls that look into it."""
    if s[0]["op"] != "load" or sum(len(json.dumps(x)) for x in s[0]["a"] if isinstance(x, list)) < 100:
        return None
    if len(json.dumps(s[0]["a"])) > 9000:
        return None
    calls = [o for o in s[1:] if o["op"] not in ("load", "errno", "move", "damage")]
    return [s[0]] + calls[:n - 1] if len(calls) >= n - 1 else None


class Many(Group):
    harness = "many"
    sources = moves.Moves.sources
    trace = ("ManyTrace", "ManyTrace.cfg")

    def __init__(self, name):
        self.name = "many-" + name


class Turns(Many):
    """One thread: every interleaving of a few calls, long random ones."""
    def __init__(self):
        super().__init__("turns")
        self.progs, self.models = [], self

    def get(self, tier, _):
        return [("ManyMC", "Many_all.cfg", {"env": {"PROGS": self.plan(tier)}, "workers": 1, "heap": "8g"})]

    def plan(self, tier):
        rng = random.Random("many/" + tier)
        n = 4 if tier == "quick" else 5
        pool = {}
        for k in READERS:
            pool[k] = []
            while len(pool[k]) < 12:
                pool[k] += [p for p in (small(s, n) for s in BASE[k][0].random(rng, "quick")) if p]
            # those that move the reader's position most
            pool[k].sort(key=lambda p: -sum(o["op"] in LOCAL.get(k, ()) for o in p))
            del pool[k][12:]
        for k in "ctxe":
            pool[k] = [s[:n] for g in BASE[k] for s in rng.sample(g.random(rng, "quick"), 20) if len(s) >= n]
        sels = []
        for k in "ctxe":
            sels.append([(k + "1", rng.choice(pool[k])), (k + "2", rng.choice(pool[k]))])
        for i, k in enumerate(READERS):
            for m in READERS[i:]:
                for rep in range(2 if k == m else 1):
                    p, q = rng.choice(pool[k]), rng.choice(pool[m])
                    sels.append([(k + "1", p), (m + ("2" if k == m else "1"), q)])
            if tier != "quick":
                other = rng.choice([m for m in READERS + "ctxe" if m != k])
                sels.append([(k + "1", rng.choice(pool[k])[:3]), (k + "2", rng.choice(pool[k])[:3]), (other + "1", rng.choice(pool[other])[:3])])
        self.progs = []
        for s, sel in enumerate(sels):
            self.progs += [(s, w, p) for w, p in sel]
        fd, f = tempfile.mkstemp(prefix="ggnss-progs-")
        atexit.register(os.remove, f)
        with open(fd, "w") as h:
            for s, w, p in self.progs:
                h.write(json.dumps({"sel": s, "w": w, "ops": [{"op": o["op"], "a": o["a"]} for o in p]}) + "\n")
        return f

    def concretize(self, x):
        s, w, p = self.progs[x["k"] - 1]
        return on(w, p[x["i"]])

    def random(self, rng, tier):
        return mixed(rng, 250 if tier == "quick" else 3000, False)

    def signature(self, m):
        return sig(m)


class Threads(Many):
    """One thread per reader."""
    models = {}

    def __init__(self, name, san):
        super().__init__("threads-" + name)
        self.san = san

    def random(self, rng, tier):
        return mixed(rng, 240 if tier == "quick" else 1500, True)

    def signature(self, m):
        return sig(m)


def sig(m):
    o = m["scenario"][min(m["i"], len(m["scenario"]) - 1)]
    return o["a"][0][0] + "." + o["a"][1] if o["op"] == "on" else o["op"]


def groups(prop):
    out = [Turns(), Threads("checked", "address,undefined")]
    # the thread sanitizer needs a memory layout that not every kernel offers
    t = Threads("races", "thread")
    exe = vlib.build(t.harness, t.sources, t.flags, t.san)
    with tempfile.NamedTemporaryFile() as s, tempfile.NamedTemporaryFile() as o:
        r = subprocess.run([exe, s.name, o.name], env=vlib.ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode == 0:
        out.append(t)
    else:
        vlib.log("the thread sanitizer does not run here: races are not looked for")
    return out
