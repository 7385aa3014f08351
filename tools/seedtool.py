"""Verify planted bugs in a scratch copy of /repo (bind-mounted over /repo in a
private mount namespace, so the real tree is never touched).

  seedtool.py make ID PROP FILE OLD NEW   (helpers used interactively)
  seedtool.py verify [ID...]              patch applies, builds, tests pass, demo 0 -> nonzero
  seedtool.py catch  [ID...]              run the property's quick check against it
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def scratch():
    d = tempfile.mkdtemp(prefix="seedwt", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def inns(wt, cmd, **kw):
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (wt, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def verify(i, wt):
    d = os.path.join(SEEDED, i)
    tmp = tempfile.mkdtemp(prefix="demo", dir="/tmp")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            (shutil.copytree(os.path.join(d, f), os.path.join(tmp, f)) if os.path.isdir(os.path.join(d, f)) else shutil.copy(os.path.join(d, f), tmp))
    demo = "bash %s/demo.sh" % tmp
    try:
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
        r = inns(wt, "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 " + demo)
        if r.returncode: return "demo fails on the unchanged tree: " + r.stdout[-1500:]
        a = subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if a.returncode: return "patch does not apply: " + a.stdout
        r = inns(wt, "bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-out.json")
        if r.returncode: return "build or tests fail: " + r.stdout[-1500:]
        o = json.load(open("/tmp/seed-out.json"))
        if o["failed"] or len(o["passed"]) < 3: return "tests fail: %s" % o
        r = inns(wt, "timeout 300 " + demo)
        if r.returncode == 0: return "demo passes with the patch"
        return "ok: " + r.stdout.strip()[-200:].replace("\n", " | ")
    finally:
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."])
        shutil.rmtree(tmp)


def catch(i, wt, tier="quick"):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    try:
        subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], check=True)
        env = dict(os.environ, VERIF_REPO=wt, VERIF_BUILD=wt + "-build", VERIF_SEED="1", VERIF_EVIDENCE=wt + "-build")
        r = subprocess.run([sys.executable, os.path.join(ROOT, "tools/check.py"), prop, tier], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
        return ("CAUGHT " if r.returncode == 1 and v else "MISSED rc=%d " % r.returncode) + prop + " " + (v[0] if v else r.stdout[-300:])
    finally:
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."])


def main():
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    wt = scratch()
    try:
        for i in ids:
            print(i, (verify if sys.argv[1] == "verify" else catch)(i, wt), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(wt + "-build", ignore_errors=True)


if __name__ == "__main__":
    main()
