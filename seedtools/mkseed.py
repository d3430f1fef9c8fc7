#!/usr/bin/env python3
"""Author and verify planted changes (development tool, not used by any check).
 mkseed.py [--checks] [id ...]   builds seeded/<id> from seedtools/seeds.py, confirms: patch applies, builds, tests pass,
 demo passes without and fails with the patch; with --checks also runs the property's check against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "seedtools"))
from seeds import SEEDS

GEO = "$R/geo_lookup/*.cpp"
LIB = {"none": "", "lookup": "geo_lookup/*.cpp", "geo": "geo/*.cpp", "ekf": "EKF/*.cpp geo/*.cpp geo_lookup/*.cpp", "wind": "airdata/*.cpp geo/*.cpp"}

DEMO = """#!/bin/bash
# exit 0: behaves as it should; nonzero: the demonstrated property is broken
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
i=0
for f in "$D/demo.cpp" %(libs)s; do
  i=$((i+1))
  g++ -std=c++14 -O1 -w -DECL_STANDALONE -I"$D/shim" -I"$D" -I"$PWD" -I"$PWD/EKF" -c "$f" -o "$T/$i.o" &
  if [ $((i %% 8)) = 0 ]; then wait; fi
done
wait
g++ "$T"/*.o -o "$T/demo" || exit 2
timeout 120 "$T/demo"
"""

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    args = sys.argv[1:]
    checks = "--checks" in args
    ids = [a for a in args if not a.startswith("--")]
    res = []
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        w = tempfile.mkdtemp(prefix="seed")
        sh("git -C /repo archive HEAD | tar x -C %s" % w)
        sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm b", cwd=w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        libs = " ".join('"$PWD"/' + l for l in LIB[s.get("libs", "none")].split())
        open(d + "/demo.sh", "w").write(DEMO % {"libs": libs})
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(s["demo"])
        if s.get("libs") in ("geo", "ekf", "wind") or s.get("shim"):
            shutil.copytree(V + "/shim", d + "/shim")
        for h in s.get("files", []):
            shutil.copy(os.path.join(V, h), d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = []
        r = sh("bash %s/demo.sh" % d, cwd=w)
        ok.append(("demo clean", r.returncode == 0, r.stdout))
        for f, a, b in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(a) != 1:
                ok.append(("edit matches %d times" % t.count(a), False, a))
            open(p, "w").write(t.replace(a, b))
        patch = sh("git diff", cwd=w).stdout
        open(d + "/patch.diff", "w").write(patch)
        r = sh("bash %s/demo.sh" % d, cwd=w)
        ok.append(("demo patched", r.returncode not in (0, 2), r.stdout))
        r = sh("git -C /repo apply --check %s/patch.diff" % d)
        ok.append(("applies", r.returncode == 0, r.stdout))
        caught = ""
        if checks:
            # a copy of the tree, never /repo itself
            e = dict(os.environ, VERIF_REPO=w)
            r = sh("python3 %s/check.py %s" % (V, s["property"]), env=e)
            caught = "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % s["property"] in r.stdout else "missed rc=%d" % r.returncode
            if os.path.exists("%s/evidence" % V):
                pass
        shutil.rmtree(w)
        bad = [x for x in ok if not x[1]]
        print(s["id"], s["property"], "ok" if not bad else "BAD %s" % [(x[0], x[2][-300:]) for x in bad], caught, flush=True)

main()
