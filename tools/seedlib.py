"""Make and confirm planted bugs.  seed(id, property, edits, needs, breaks, demo, srcs, shim)
edits: [(file under /repo, old text, new text)].  Confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()

def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
    return r.returncode, r.stdout

DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0: the property holds for this demonstration
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 -w -DDEBUG -include string -include utility -Isrc %(shim)s "$here/demo.cpp" %(srcs)s -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
"""

def seed(id, prop, edits, needs, breaks, demo, srcs="", shim=False, work="/tmp/seedwork"):
    wt = os.path.join(work, "repo")
    if not os.path.exists(wt):
        os.makedirs(work, exist_ok=True); sh("cp -a /repo %s" % wt)
    sh("git checkout -q -- . && git -C /repo rev-parse HEAD | xargs git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", wt)
    files = sorted({e[0] for e in edits}); lines = []
    for f, old, new in edits:
        p = os.path.join(wt, f); t = open(p).read()
        if t.count(old) != 1:
            print("%s: old text found %d times in %s" % (id, t.count(old), f)); return False
        open(p, "w").write(t.replace(old, new))
    _, diff = sh("git diff", wt)
    # every removed line must be one of the original repository
    for f in files:
        _, blame = sh("git diff -U0 -- %s" % f, wt)
        base = sh("git show %s:%s" % (BASE, f), wt)[1].splitlines()
        rem = [l[1:] for l in blame.splitlines() if l.startswith("-") and not l.startswith("---")]
        for l in rem:
            if l not in base: print("%s: warning: removed line not in base: %s" % (id, l))
        if not rem: print("%s: warning: %s only adds lines" % (id, f))
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    incl = "-Isrc"
    if shim:
        shutil.copytree(V + "/shim", d + "/shim")
    open(d + "/demo.sh", "w").write(DEMO_SH % {"shim": '-I"$here/shim"' if shim else "", "srcs": " ".join("src/" + s for s in srcs.split())})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # clean
    r0, o0 = sh("bash %s/demo.sh" % d, "/repo")
    r1, o1 = sh("bash %s/demo.sh" % d, wt)
    ok = r0 == 0 and r1 not in (0, 3)
    rb, ob = (0, ""); rt = 0
    env = "cd %s && " % wt
    # build and run the stable tests on the changed copy (its Makefiles name /repo: build by hand)
    bt = os.path.join(work, "b"); os.makedirs(bt, exist_ok=True)
    fl = "g++ -std=c++17 -g -w -DDEBUG -include string -include utility -I%s/src" % wt
    libs = " ".join("%s/src/%s.cpp" % (wt, s) for s in "nvarstr satsys satellite gnssobs gnssobsrv antenna antenna_pcv".split())
    _, ob2 = sh("for s in %s; do %s -c $s -o $(basename $s .cpp).o || echo BUILD-FAIL & done; wait; " % (libs, fl) +
                "for t in antenna gnssobs gnssobsrv; do %s %s/test/test_$t.cpp *.o -o t_$t || echo BUILD-FAIL $t; ./t_$t >/dev/null 2>&1 || echo FAIL $t; done; " % (fl, wt) +
                "g++ -std=c++17 -fsyntax-only -I%s/src -include iostream -include vector -include algorithm -include cassert -x c++ %s/src/gauss_newton.hpp || echo FAIL gn" % (wt, wt), bt)
    sh("git checkout -q -- .", wt)
    print("%-24s %s demo clean=%d patched=%d tests=%s" % (id, "OK " if ok else "BAD", r0, r1, "ok" if "FAIL" not in ob2 else ob2.strip()))
    if not ok: print(o0[-1500:]); print(o1[-1500:])
    if not ok: shutil.rmtree(d)
    return ok
