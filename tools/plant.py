#!/usr/bin/env python3
"""plant.py SPEC.py ... -- create seeded/<id> from a spec (id, property, needs, breaks, edits, demo) in a scratch copy,
   and confirm it: the patch applies, the library builds, the stable tests pass, the demo passes without and fails with it.
   plant.py --confirm ID ... re-confirms."""
import sys, os, subprocess, json, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs in /repo after the build; compiles the demonstration beside it against /repo's sources.
set -eu
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=$(find "$PWD/include" -type d -printf '-I%p '); pids=()
for f in $(find "$PWD/src" -name '*.cpp') "$here/demo.cpp"; do
  g++ -std=c++17 -O0 -w -include utility -DUSE_DYNAMIC_ASSERTIONS -DUSE_VIRTUAL_FUNCTIONS -DNDEBUG FLAGS $inc -I/usr/include/eigen3 -c "$f" -o "$t/$(echo "$f" | md5sum | cut -c1-10).o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ LINK "$t"/*.o -o "$t/demo" LDFLAGS -lpthread
timeout 120 "$t/demo"
'''
CF = {"cd": "-DUSE_COMPLEX_MATH -DCOOLDIFF_SCALAR_TYPE=2", "rd": "-DCOOLDIFF_SCALAR_TYPE=2", "rf": "-DCOOLDIFF_SCALAR_TYPE=1"}
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def confirm(i):
    d = os.path.join(V, "seeded", i); t = tempfile.mkdtemp(prefix="pl", dir="/tmp"); r = os.path.join(t, "repo")
    try:
        sh("git -C /repo worktree prune; mkdir %s; git -C /repo archive HEAD | tar x -C %s" % (r, r))
        a = sh("bash %s/demo.sh" % d, cwd=r)
        if a.returncode: print(i, "DEMO FAILS ON CLEAN TREE", a.stdout[-1500:]); return False
        p = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd=r)
        p = sh("patch -p1 < %s/patch.diff" % d, cwd=r) if p.returncode else p
        b = sh("bash %s/demo.sh" % d, cwd=r)
        if b.returncode == 0: print(i, "DEMO PASSES WITH THE PATCH"); return False
        print(i, "demo ok:", b.stdout.strip().splitlines()[-1:] )
    finally: shutil.rmtree(t, ignore_errors=True)
    # tests in /repo itself (build.sh knows no other place), undone straight afterwards
    if sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(): print("repo dirty"); return False
    try:
        x = sh("git -C /repo apply %s/patch.diff" % d)
        if x.returncode: print(i, "does not apply", x.stdout); return False
        sh("bash /opt/vp/test.sh /tmp/plant.json"); j = json.load(open("/tmp/plant.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        want = base.get("passed") or base.get("stable") or base; miss = [t for t in want if t not in j["passed"]]
        if miss: print(i, "BREAKS TESTS", miss[:5]); return False
    finally: sh("git -C /repo checkout -- .")
    print(i, "CONFIRMED"); return True
def make(spec):
    d = os.path.join(V, "seeded", spec["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="pl", dir="/tmp")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A; git -c user.name=a -c user.email=a commit -qm a" % (t, t))
        for f, old, new in spec["edits"]:
            p = os.path.join(t, f); s = open(p).read(); n = s.count(old)
            if isinstance(new, tuple): idx, new = new
            else: idx = None
            if idx is None:
                assert n == 1, "%s: %d matches in %s" % (spec["id"], n, f); s = s.replace(old, new)
            else:
                assert n > idx; parts = s.split(old); s = old.join(parts[:idx + 1]) + new + old.join(parts[idx + 1:])
            open(p, "w").write(s)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=t).stdout)
    finally: shutil.rmtree(t, ignore_errors=True)
    open(os.path.join(d, "demo.cpp"), "w").write('#include <utility>\n#include "CoolDiff.hpp"\n#include <cstdio>\n#include <cmath>\n#include <complex>\nstatic int bad = 0;\nstatic void expect(const char* w, Type g, Type want, double tol = 1e-9) { if (!(std::abs(g - want) <= tol * (1 + std::abs(want)))) { printf("%s: wrong value\\n", w); bad = 1; } }\n' + spec["demo"] + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("LDFLAGS", spec.get("ldflags", "")).replace("FLAGS", CF[spec.get("cfg", "cd")] + " " + spec.get("flags", "")).replace("LINK", spec.get("flags", "")))
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
if __name__ == "__main__":
    ok = True
    if sys.argv[1] == "--confirm":
        for i in sys.argv[2:]: ok &= confirm(i)
    else:
        for f in sys.argv[1:]:
            for s in runpy.run_path(f)["SPECS"]:
                make(s); ok &= confirm(s["id"])
    sys.exit(0 if ok else 1)
