#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]

exit 0: every explored behaviour of the real code is a behaviour of the
specification (and the specification satisfies its invariants);
exit 1 + VIOLATION line: a recorded behaviour the specification rejects;
exit 2: the machinery failed."""
import importlib, json, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError, Group, Op, log

PLAN_OF = {}
for _m, _ids in {
    "codes": "C01 C02 C03 C04", "antennas": "C05 C06 C07", "strings": "C08",
    "antex": "C09 C10 C11 C12", "nav": "C13 C14 C15", "navorbit": "C16",
    "obs": "C17 C18 C19", "sp3": "C20", "bern": "C21", "kalman": "C22",
    "faults": "C23", "moves": "C24", "many": "C25",
}.items():
    for _i in _ids.split():
        PLAN_OF[_i] = _m


def known():
    """Open entries of the known-findings file (never written by a check)."""
    out = []
    with open(os.path.join(vlib.ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"open:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", line)
            if m:
                out.append({"property": m.group(1), "sig": m.group(2), "what": m.group(3).strip()})
    return out


def run_group(g, tier, seed, cov):
    t0 = time.time()
    exe = vlib.build(g.harness, g.sources, g.flags, g.san)
    cov["build_s"] = round(cov.get("build_s", 0) + time.time() - t0, 1)
    scen = []
    for module, cfg, kw in g.models.get(tier, g.models.get("quick", [])):
        t1 = time.time()
        mc = vlib.model_check(module, cfg, **kw)
        cov["states"] += mc["distinct"]
        cov["transitions"] += mc["generated"]
        s = vlib.from_histories(mc["hist"], g.concretize)
        s = [g.finish(x) for x in vlib.merge_queries(s, lambda o: o["op"] in g.queries)]
        if not s:
            raise CheckError("%s/%s emitted no behaviour" % (module, cfg))
        cov["model_runs"].append({"spec": module, "cfg": cfg, "distinct_states": mc["distinct"],
                                  "transitions": mc["generated"], "histories": len(mc["hist"]),
                                  "wall_s": round(time.time() - t1, 1)})
        scen += s
    n_model = len(scen)
    rng = random.Random("%s/%s/%d" % (g.name, tier, seed))
    scen += g.fixed(tier)
    scen += g.random(rng, tier)
    t1 = time.time()
    events, notes = vlib.run_harness(exe, scen)
    t2 = time.time()
    mism, tstates = vlib.validate(g.trace[0], g.trace[1], events)
    # report only what a second execution repeats
    if mism:
        redo = sorted({m["s"] for m in mism})[:400]
        ev2, _ = vlib.run_harness(exe, [scen[k] for k in redo], max_crashes=400)
        mm2, _ = vlib.validate(g.trace[0], g.trace[1], ev2)
        again = {(redo[m["s"]], m["i"]) for m in mm2}
        mism = [m for m in mism if (m["s"], m["i"]) in again]
    ran = [e for e in events if e is not None]
    cov["trace_states"] += tstates
    cov["traces_validated_against_impl"] += len(ran)
    cov["events_validated"] += sum(len(e) for e in ran)
    for e in ran:
        for x in e:
            k = g.name + "." + x["op"]
            cov["events_by_operation"][k] = cov["events_by_operation"].get(k, 0) + 1
    cov["group_runs"].append({"group": g.name, "scenarios_from_model": n_model,
                              "scenarios_generated": len(scen) - n_model,
                              "harness_s": round(t2 - t1, 1),
                              "trace_validation_s": round(time.time() - t2, 1)})
    for k in (0, len(ran) // 2, len(ran) - 1):
        if ran:
            cov["samples"].append({"group": g.name, "events": json.loads(json.dumps(ran[k][:6]))})
    note = dict(notes)
    out = []
    for m in mism:
        sc = scen[m["s"]]
        out.append({"group": g.name, "scenario": [{"op": o["op"], "a": o["a"], "h": o.h} for o in sc],
                    "index": m["i"], "op": m["op"], "expected": m.get("exp"), "got": m.get("got"),
                    "sig": g.name + ":" + g.signature(dict(m, scenario=sc)),
                    "note": note.get(m["s"], "")})
    # a dead process that the trace spec did not flag cannot happen: "crash" never matches
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = importlib.import_module("plans." + PLAN_OF[prop])
    groups = plan.groups(prop)
    if "--replay" in sys.argv:
        return replay(prop, groups, args[-1])
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "trace_states": 0, "events_validated": 0, "events_by_operation": {},
           "model_runs": [], "group_runs": [], "samples": []}
    found = []
    for g in groups:
        found += run_group(g, tier, seed, cov)
    kn = [k for k in known() if k.get("property") == prop]
    sigs = {k["sig"]: k for k in kn}
    reported = [f for f in found if f["sig"] not in sigs]
    listed = {}
    for f in found:
        if f["sig"] in sigs:
            listed.setdefault(f["sig"], f)
    for s in sorted(listed):
        log("KNOWN-FINDING: property=%s %s" % (prop, sigs[s]["what"]))
    os.makedirs(vlib.EVIDENCE, exist_ok=True)
    cov["samples"] = cov["samples"][:6]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(reported),
          "assumptions": plan.ASSUMPTIONS}
    if listed:
        ev["coverage"]["known_findings_seen"] = sorted(listed)
    with open(os.path.join(vlib.EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d states, %d transitions, %d traces (%d events) validated, %d mismatches, %.1f s" %
        (prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
         cov["events_validated"], len(reported), time.time() - t0))
    if not reported:
        return 0
    os.makedirs(vlib.REPLAYS, exist_ok=True)
    count = {}
    for f in reported:
        count[f["sig"]] = count.get(f["sig"], 0) + 1
    log("  " + ", ".join("%s: %d" % x for x in sorted(count.items())))
    # shortest failing scenario first
    reported.sort(key=lambda f: (f["index"], len(json.dumps(f["scenario"]))))
    for n, f in enumerate(reported[:5]):
        path = os.path.join(vlib.REPLAYS, "%s-%d.json" % (prop, n))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        if n < 3:
            log("  %s op %d (%s): specification allows %s, code did %s %s" % (
                f["group"], f["index"], f["op"], json.dumps(f["expected"])[:300],
                json.dumps(f["got"])[:300], f["note"]))
            log("    after " + json.dumps([[o["op"], o["a"]] for o in f["scenario"][:f["index"] + 1]])[:600])
    log("VIOLATION property=%s replay=%s" % (prop, os.path.join(vlib.REPLAYS, "%s-0.json" % prop)))
    return 1


def replay(prop, groups, path):
    with open(path) as f:
        r = json.load(f)
    g = [x for x in groups if x.name == r["group"]][0]
    exe = vlib.build(g.harness, g.sources, g.flags, g.san)
    sc = [Op(o["op"], *o["a"], h=o["h"]) for o in r["scenario"]]
    ev, notes = vlib.run_harness(exe, [sc])
    mm, _ = vlib.validate(g.trace[0], g.trace[1], ev)
    for e in ev[0]:
        log(json.dumps(e))
    for m in mm:
        log("MISMATCH", json.dumps(m))
    if mm:
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if mm else 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
