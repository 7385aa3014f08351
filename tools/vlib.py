"""Machinery shared by all checks: build a harness from /repo's working tree,
run TLC on a specification, replay generated scenarios into the real code and
validate the recorded traces with TLC."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(ROOT, "specs")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
REPLAYS = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "replays"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

# headers the sources use without including them (their original build pulled
# them in through ggdatetime); harmless when a source includes them itself
FORCED = ["string", "utility", "iostream", "vector", "algorithm", "cassert",
          "cstring", "cmath", "map", "array", "limits", "stdexcept", "cerrno",
          "fstream", "sstream", "memory", "tuple", "functional", "numeric",
          "type_traits", "cstdlib", "cstdint", "optional", "iterator", "cstdio"]

KNOWN_SOURCES = set("""antenna.cpp antenna_pcv.cpp antex.cpp bdsnav.cpp bern_utils.cpp galnav.cpp
    glonav.cpp gnssobs.cpp gnssobsrv.cpp gpsnav.cpp navcmp.cpp navrnx.cpp nvarstr.cpp obsrnx.cpp
    satellite.cpp satsys.cpp sp3c.cpp""".split())


class CheckError(Exception):
    """The machinery itself failed; neither a pass nor a violation."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------- building
def _digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _tree(d):
    out = []
    for base, _, files in os.walk(d):
        out += [os.path.join(base, f) for f in files
                if f.endswith((".hpp", ".cpp", ".h", ".hh", ".c", ".cc", ".tcc", ".inl"))]
    return out


def build(harness, sources, extra=(), san="address,undefined"):
    """Compile harness/<harness>.cpp with the given /repo sources; cached by the
    content of everything that can influence the result."""
    src = os.path.join(REPO, "src")
    deps = _tree(src) + _tree(os.path.join(ROOT, "shim")) + _tree(os.path.join(ROOT, "harness"))
    flags = ["-std=c++17", "-O1", "-g1", "-DDEBUG", "-w", "-fpermissive",
             "-fsanitize=" + san, "-fno-sanitize-recover=undefined",
             "-fno-sanitize=vptr", "-fno-omit-frame-pointer",
             "-ftrivial-auto-var-init=pattern",
             "-I" + src, "-I" + os.path.join(ROOT, "shim"),
             "-I" + os.path.join(ROOT, "harness")]
    for f in FORCED:
        flags += ["-include", f]
    flags += list(extra)
    key = _digest(deps, (harness, tuple(sources), flags))
    outdir = os.path.join(BUILD, harness + "-" + key)
    exe = os.path.join(outdir, harness)
    if os.path.exists(exe):
        return exe
    os.makedirs(outdir, exist_ok=True)
    units = [os.path.join(ROOT, "harness", harness + ".cpp")] + \
            [os.path.join(src, s) for s in sources]
    # a source file the tree did not have before belongs to the library
    fresh = [os.path.join(src, f) for f in sorted(os.listdir(src))
             if f.endswith(".cpp") and f not in KNOWN_SOURCES]
    units += fresh
    tmp = tempfile.mkdtemp(prefix="obj", dir=outdir)

    def comp(u):
        o = os.path.join(tmp, "%d.o" % units.index(u))
        r = subprocess.run(["g++"] + flags + ["-c", u, "-o", o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return u, o, r.returncode, r.stdout

    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(comp, units))
    bad = [r for r in res if r[2] and r[0] not in fresh]
    if bad:
        raise CheckError("compilation failed: " + bad[0][0] + "\n" + bad[0][3][-3000:])
    r = subprocess.run(["g++", "-fsanitize=" + san] + [x[1] for x in res if not x[2]] +
                       ["-o", exe + ".tmp"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-1000:])
    os.replace(exe + ".tmp", exe)
    return exe


# --------------------------------------------------------------- harness runs
_SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;/_-+*#<>()[]=?!&'\"@^|~{}$`\\")


def enc(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, (list, tuple)):
        x = bytes(x)
    if isinstance(x, str):
        x = x.encode("latin-1")
    return "".join(chr(b) if b in _SAFE else "%%%02x" % b for b in x)


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:max_malloc_fill_size=4000000:malloc_fill_byte=190:"
                    "hard_rss_limit_mb=4000:allocator_may_return_null=0:handle_abort=0:"
                    "detect_stack_use_after_return=0:abort_on_error=0:print_summary=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:print_suppressions=0:report_signal_unsafe=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=78",
    "LC_ALL": "C",
})


class Op(dict):
    """op: name, a: arguments as the model sees them, h: as the harness sees them."""
    def __init__(self, op, *a, h=None):
        super().__init__(op=op, a=list(a))
        self.h = list(a) if h is None else list(h)


def run_harness(exe, scenarios, max_crashes=12, wall=240):
    """Execute scenarios (lists of Op) in several processes; returns a list of
    events per scenario.  An event is {"op","a","st","r"}.  A dead process ends
    its scenario; after max_crashes of them the rest of its share is dropped."""
    n = len(scenarios)
    jobs = max(1, min(NCPU, n // 200))
    # interleaved shares: neighbours take about the same time
    shares = [list(range(j, n, jobs)) for j in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda s: _run_share(exe, [scenarios[k] for k in s], max(4, max_crashes // jobs), wall), shares))
    events, notes = [None] * n, []
    for share, (ev, no) in zip(shares, res):
        for k, e in zip(share, ev):
            events[k] = e
        notes += [(share[k], t) for k, t in no]
    return events, notes


def _run_share(exe, scenarios, max_crashes, wall):
    events = [None] * len(scenarios)
    crashes = 0
    i = 0
    tmp = tempfile.mkdtemp(prefix="ggnss-h-")
    notes = []
    try:
        while i < len(scenarios):
            script, outp = os.path.join(tmp, "s"), os.path.join(tmp, "o")
            with open(script, "w", encoding="latin-1") as f:
                for sc in scenarios[i:]:
                    for op in sc:
                        f.write("\t".join([op["op"]] + [enc(x) for x in op.h]) + "\n")
                    f.write("reset\n")
            work = os.path.join(tmp, "w")
            shutil.rmtree(work, ignore_errors=True)
            os.mkdir(work)
            if os.path.exists(outp):
                os.remove(outp)
            timed_out = False
            with open(os.path.join(tmp, "err"), "wb") as err:
                p = subprocess.Popen([exe, script, outp], stdin=subprocess.DEVNULL,
                                     stdout=subprocess.DEVNULL, stderr=err, env=ENV, cwd=work)
                try:
                    rc = p.wait(timeout=wall)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc, timed_out = -9, True
            lines = []
            if os.path.exists(outp):
                with open(outp, encoding="latin-1") as f:
                    lines = [l for l in f.read().split("\n") if l]
            k = 0
            dead = False
            while i < len(scenarios):
                sc = scenarios[i]
                ev = []
                for op in list(sc) + [Op("reset")]:
                    if k < len(lines):
                        try:
                            o = json.loads(lines[k])
                        except ValueError:
                            o = {"st": "crash", "r": []}
                        k += 1
                    else:
                        o = {"st": "crash", "r": []}
                    ev.append({"op": op["op"], "a": op["a"], "st": o["st"], "r": o["r"]})
                    if o["st"] in ("crash", "hang", "terminate"):
                        dead = True
                        break
                events[i] = ev
                i += 1
                if dead:
                    break
            if dead:
                if timed_out:
                    raise CheckError("harness exceeded its wall-clock limit")
                if rc == 8 or rc == 9:
                    raise CheckError("harness could not run (exit %d)" % rc)
                crashes += 1
                with open(os.path.join(tmp, "err"), "rb") as f:
                    e = f.read().decode("latin-1")
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error:[^\n]*|Assertion[^\n]*)", e)
                notes.append((i - 1, (m.group(1) if m else "exit %d" % rc)[:200]))
                if crashes >= max_crashes:
                    break
            elif rc != 0:
                # died after the last operation's result was written
                raise CheckError("harness exit %d after completing its script" % rc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return events, notes


# --------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=()):
    meta = tempfile.mkdtemp(prefix="ggnss-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
           "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg]
    cmd += list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode("latin-1")
        return r.returncode, out
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_error(out):
    k = out.find("Error:")
    return out[k:k + 1200] if k >= 0 else out[-800:]


def _stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def _printed(out, tag):
    """Values printed by the spec as <<"tag", "json text">> or "tag:json" strings."""
    res = []
    for line in out.split("\n"):
        if line.startswith('"' + tag + ":"):
            s = json.loads(line)
            res.append(json.loads(s[len(tag) + 1:]))
    return res


def model_check(module, cfg, workers=1, timeout=800, env=None, heap="4g", extra=()):
    """Exhaustive run: invariants must hold, emitted histories are returned."""
    rc, out = tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("specification %s/%s: TLC exit %d\n%s" % (module, cfg, rc, tlc_error(out)))
    g, d = _stats(out)
    return {"generated": g, "distinct": d, "hist": _printed(out, "HIST"), "out": out}


def validate(module, cfg, events, jobs=None, timeout=600):
    """TLC checks every recorded scenario against the spec's actions.
    Returns (mismatches, states): a mismatch is dict(s, i, op, exp, got)."""
    idx = [k for k, e in enumerate(events) if e is not None]
    n = sum(len(events[k]) for k in idx)
    if not idx:
        return [], 0
    jobs = jobs or max(1, min(NCPU - 1, n // 1500))
    # contiguous chunks of about equal numbers of events
    chunks, cur, cnt = [], [], 0
    for k in idx:
        cur.append(k)
        cnt += len(events[k])
        if cnt >= n / jobs:
            chunks.append(cur)
            cur, cnt = [], 0
    if cur:
        chunks.append(cur)
    tmp = tempfile.mkdtemp(prefix="ggnss-tr-")

    def one(c):
        path = os.path.join(tmp, "t%d.ndjson" % c[0])
        total = 0
        with open(path, "w") as f:
            for k in c:
                for i, e in enumerate(events[k]):
                    f.write(json.dumps(dict(e, s=k, i=i)) + "\n")
                    total += 1
                if events[k][-1]["op"] != "reset":   # the process died here
                    f.write(json.dumps({"op": "reset", "a": [], "st": "ok", "r": [],
                                        "s": k, "i": len(events[k])}) + "\n")
                    total += 1
        rc, out = tlc(module, cfg, env={"TRACE": path}, timeout=timeout)
        g, d = _stats(out)
        done = _printed(out, "DONE")
        if rc != 0 or "No error has been found" not in out or done != [total]:
            raise CheckError("trace specification %s: TLC exit %d\n%s" % (module, rc, tlc_error(out)))
        return _printed(out, "MISMATCH"), d

    try:
        with ThreadPoolExecutor(len(chunks)) as ex:
            res = list(ex.map(one, chunks))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mism = [m for r in res for m in r[0]]
    return mism, sum(r[1] for r in res)


# --------------------------------------------------------------- scenarios
def from_histories(hists, concretize):
    """TLC emits one history per transition it explored.  Histories that are a
    prefix of another one are dropped; histories that differ only in a final
    state-preserving query are merged by the caller's spec (queries are emitted
    in one history through the 'q' marker)."""
    seen = set()
    keys = []
    for h in hists:
        k = json.dumps(h, sort_keys=True)
        if k not in seen:
            seen.add(k)
            keys.append(h)
    # drop proper prefixes
    pref = set()
    for h in keys:
        for n in range(1, len(h)):
            pref.add(json.dumps(h[:n], sort_keys=True))
    out = []
    for h in keys:
        if json.dumps(h, sort_keys=True) in pref:
            continue
        out.append([concretize(x) for x in h])
    return out


def merge_queries(scenarios, is_query, cap=60):
    """Scenarios with the same prefix and differing only in one trailing query
    (an operation that leaves the model state unchanged) run as one scenario."""
    groups, rest = {}, []
    for sc in scenarios:
        if is_query(sc[-1]):
            k = json.dumps([(o["op"], o["a"]) for o in sc[:-1]])
            groups.setdefault(k, (sc[:-1], []))[1].append(sc[-1])
        else:
            rest.append(sc)
    for pre, qs in groups.values():
        for i in range(0, len(qs), cap):
            rest.append(pre + qs[i:i + cap])
    return rest


# --------------------------------------------------------------- plans
class Group:
    """One exploration: a specification, a harness, and sources of scenarios."""
    name = "group"
    harness = None
    sources = ()
    flags = ()
    san = "address,undefined"
    trace = None            # (module, cfg)
    models = {}             # tier -> [(module, cfg, kwargs)]
    queries = frozenset()   # operations that leave the model state unchanged
    max_random_events = 10 ** 9

    def concretize(self, x):
        return Op(x["op"], *x["a"])

    def random(self, rng, tier):
        return []

    def fixed(self, tier):
        return []

    def finish(self, scenario):
        """Completes a scenario of the model (with a last look at the state, say)."""
        return scenario

    def signature(self, m):
        """Identifies the specific input or call of a mismatch for the known-findings file."""
        return m.get("op", "")
