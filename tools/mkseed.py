"""mk(...) writes /verif/seeded/<id>/ from a textual edit of /repo (made in a
scratch copy) and a demonstration program."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(ROOT, "shim")
FORCED = "string utility iostream vector algorithm cassert cstring cmath map array limits stdexcept cerrno fstream sstream memory tuple functional numeric type_traits cstdlib cstdint optional iterator cstdio".split()
SH = """#!/bin/bash
# exit 0 when the demonstrated behaviour is right; run with cwd /repo
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -fpermissive %(flags)s %(inc)s -I"$PWD/src"%(shim)s "$here/demo.cpp" %(src)s -o "$tmp/demo"
cd "$tmp"
%(run)s
"""


def mk(id, prop, edits, demo, needs, breaks, sources=(), flags="-g", shim=False, run='timeout 60 "$tmp/demo"'):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    wt = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", wt + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(wt, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt + "/r", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(wt)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    if shim:
        shutil.copytree(SHIM, d + "/shim")
    open(d + "/demo.sh", "w").write(SH % {
        "flags": flags, "inc": " ".join("-include " + f for f in FORCED), "run": run,
        "shim": ' -I"$here/shim"' if shim else "",
        "src": " ".join('"$PWD/src/%s"' % s for s in sources)})
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
