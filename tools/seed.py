#!/usr/bin/env python3
"""seed.py make SPEC.py | test ID [CHECK...] | all   -- planted bugs (never used by the checks)

make: SPEC.py defines id, prop, edits=[(file, old, new)], needs, breaks, prog (core program text, or files={name: text}), expected, lib=False
test: builds a scratch copy of /repo with the patch, mounted over /repo in a private namespace; runs the 70 tests, the demo, and the named checks.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

SEED = "/verif/seeded"
DEMO = """#!/bin/bash
# exit 0 iff the program's output is exactly the expected one
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d"/*.min "$t"/
m=$PWD/build/boot/minim
cd "$t"
timeout -k 5 120 "$m" -q %s demo.min > out 2>&1
rc=$?
cmp -s out "$d/expected" && [ $rc = %d ] || { echo "exit status $rc, output:"; head -c 2000 out; exit 1; }
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def make(path):
    s = runpy.run_path(path)
    d = os.path.join(SEED, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seedmk", dir="/tmp")
    try:
        sh("git -C /repo worktree prune; git clone -q /repo %s/r" % w)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = sh("git -C %s/r diff" % w).stdout
        # every removed line should come from the base commit
        for f, _, _ in s["edits"]:
            bl = sh("git -C %s/r diff -U0 %s | grep '^@@'" % (w, f)).stdout
            for ln in bl.splitlines():
                a = ln.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    b = sh("git -C %s/r blame -s -L%d,%d HEAD -- %s" % (w, i, i, f)).stdout
                    if "b735f22" not in b and not b.startswith("^"):
                        print("  line not original:", b.strip())
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    lib = s.get("lib", False)
    for n, t in (s.get("files") or {"demo.min": s["prog"]}).items():
        open(os.path.join(d, n), "w").write(t)
    if "demo" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % ("" if lib else "--no-libs", s.get("rc", 0)))
        open(os.path.join(d, "expected"), "w").write(s["expected"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", s["id"])


INNER = r"""
mount --bind %(w)s/repo /repo; mkdir -p %(w)s/ev /verif/evidence; mount --bind %(w)s/ev /verif/evidence
cd /repo
echo "== demo, unpatched"; bash /opt/vp/build.sh > %(w)s/build0.log 2>&1 && bash %(d)s/demo.sh; echo "rc $?"
git apply %(d)s/patch.diff || exit 1
bash /opt/vp/build.sh > %(w)s/build.log 2>&1 || { echo BUILD-FAILED; tail -5 %(w)s/build.log; exit 1; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh %(w)s/res.json > /dev/null 2>&1
python3 -c "
import json; r=json.load(open('%(w)s/res.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('== tests: stable missing', sorted(b-set(r['passed'])))"
fi
bash /opt/vp/build.sh > %(w)s/build.log 2>&1
echo "== demo, patched"; bash %(d)s/demo.sh | head -5; echo "rc ${PIPESTATUS[0]}"
cd /verif
for p in %(checks)s; do echo "== check $p"; timeout 900 python3 checks/run.py $p quick > %(w)s/$p.log 2>&1; echo "rc $?"; grep -a -A3 'expected\|VIOLATION\|CHECK-ERROR' %(w)s/$p.log | head -${LINES_:-4}; done
"""


def test(i, checks):
    w = tempfile.mkdtemp(prefix="seedrun", dir="/tmp")
    d = os.path.join(SEED, i)
    try:
        sh("cp -a /repo %s/repo" % w)
        subprocess.run(["unshare", "-rm", "bash", "-c", INNER % dict(w=w, d=d, checks=" ".join(checks))])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if sys.argv[1] == "make":
    for p in sys.argv[2:]:
        make(p)
elif sys.argv[1] == "test":
    i = sys.argv[2]
    print("#", i, flush=True)
    test(i, sys.argv[3:] or [json.load(open(os.path.join(SEED, i, "meta.json")))["property"]])
