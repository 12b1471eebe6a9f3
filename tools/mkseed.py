"""Plants one bug: python3 tools/mkseed.py NAME...   (definitions in tools/seeds.py)
Applies it to /repo, builds, runs the repository's tests and the demonstration,
undoes it, and writes seeded/NAME/ if the bug counts."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V, R = "/verif", "/repo"
DEMO = """#!/bin/bash
# run with cwd = the repository; exits 0 if the promised behaviour is there
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-18 -std=c++2a -w -O0 -g -DCONSTEXPR_CEST=1 %s-I include "$here/demo.cpp" -o "$out/demo" || exit 2
cd "$out" && timeout 60 ./demo%s
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def undo():
    sh("git -C /repo checkout -- .")


def one(name, checks):
    s = SEEDS[name]
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "dirty /repo"
    d = os.path.join(V, "seeded", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", "") + (" " if s.get("flags") else ""), s.get("run", "")))
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean = sh("bash %s/demo.sh" % d, cwd=R)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, "include/cest", f)
            t = open(p).read()
            assert old in t, "pattern not in " + f
            n = s.get("nth", {}).get(f, 0)
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(t)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        # changes at least one line of the original repository
        own = True
        for f, _, _ in s["edits"]:
            d0 = sh("git -C /repo diff -U0 include/cest/%s" % f).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a + n):
                    if "c5a8cfb" in sh("git -C /repo blame -s HEAD -L%d,%d -- include/cest/%s" % (k, k, f)).stdout:
                        own = False
        if own:
            print("%s: *** only own lines" % name)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /tmp/tst.sh") if b.returncode == 0 else b
        demo = sh("bash %s/demo.sh" % d, cwd=R)
        ok = clean.returncode == 0 and demo.returncode != 0 and b.returncode == 0 and t.returncode == 0
        print("%s: %s  build %d tests %d demo clean %d patched %d" % (name, "COUNTS" if ok else "*** DOES NOT COUNT", b.returncode, t.returncode, clean.returncode, demo.returncode), t.stdout.strip()[-200:] if t.returncode else "", clean.stderr[-600:] if clean.returncode else "")
        if ok:
            for c in checks or [s["property"]]:
                r = sh("python3-vt %s/check.py %s" % (V, c))
                print("   %s exit %d %s" % (c, r.returncode, (r.stdout.strip().splitlines() or [""])[0][:160]))
        else:
            shutil.rmtree(d)
    finally:
        undo()


names = [a for a in sys.argv[1:] if a in SEEDS]
checks = [a for a in sys.argv[1:] if a not in SEEDS]
for n in names or list(SEEDS):
    one(n, checks)
sh("bash /opt/vp/build.sh")
