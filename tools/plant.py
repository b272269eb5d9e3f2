#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of the repository and runs checks on them.

  plant.py confirm SPEC...   write seeded/<id> from each spec if it is confirmed
  plant.py check ID [PROP..] run the check(s) against seeded/<id> in the scratch copy

A spec is a text file: "#id", "#property", "#needs", "#breaks" lines, then
"@@ file", "<<<<" old "====" new ">>>>" blocks, and "@@ demo" followed by demo.cpp.
Scratch copy: /tmp/sr (removed by "plant.py clean").
"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = os.environ.get("PLANT_SR", "/tmp/sr")
R = SR + "/repo"
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour shown in demo.cpp is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++14 -w %s -Isrc "$here/demo.cpp" $(ls src/mathic/*.cpp | grep -v main.cpp) -lmemtailor -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 30 ./demo
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    if not os.path.isdir(R):
        os.makedirs(SR, exist_ok=True)
        sh("cp -a /repo " + R)
        for n in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", SR + "/build.sh").replace("R=/repo", "R=" + R).replace("B=/repo/_build", "B=" + R + "/_build")
            open(SR + "/" + n, "w").write(t)
        sh("rm -rf %s/_build" % R)
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (R, R))

def parse(path):
    t = open(path).read()
    d = dict(re.findall(r"^#(id|property|needs|breaks|flags|prelude) (.*)$", t, re.M))
    head, _, demo = t.partition("@@ demo\n")
    if d.get("prelude"):
        demo = open(V + "/tools/prelude/%s.h" % d["prelude"]).read() + demo
    edits = []
    for m in re.finditer(r"^@@ (\S+)\n((?:<<<<\n.*?\n?>>>>\n)+)", head, re.M | re.S):
        for e in re.finditer(r"<<<<\n(.*?)====\n(.*?)>>>>\n", m.group(2), re.S):
            edits.append((m.group(1), e.group(1), e.group(2)))
    return d, edits, demo

def tests():
    b = sh("bash %s/build.sh" % SR)
    if b.returncode:
        return "build failed: " + b.stderr[-1500:]
    sh("bash %s/test.sh %s/out.json" % (SR, SR))
    got = json.load(open(SR + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("passed") or base.get("stable") or base
    miss = [x for x in want if x not in got["passed"]]
    return "tests fail: %s" % miss if miss else None

def demo(d):
    p = sh("bash %s/demo.sh" % d, cwd=R)
    return p.returncode, (p.stdout + p.stderr)[-400:]

def confirm(spec):
    scratch()
    d, edits, dm = parse(spec)
    assert edits, "no edits"
    for f, a, b in edits:
        p = R + "/" + f
        t = open(p).read()
        if t.count(a) != 1:
            return "%s: edit text found %d times in %s" % (d["id"], t.count(a), f)
        open(p, "w").write(t.replace(a, b))
    diff = sh("git -C %s diff" % R).stdout
    err = tests()
    if err:
        return d["id"] + ": " + err
    o = SR + "/seed"
    shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    open(o + "/demo.cpp", "w").write(dm)
    open(o + "/demo.sh", "w").write(DEMO % d.get("flags", "-O1"))
    bad, out = demo(o)
    sh("git -C %s checkout -- ." % R)
    good, gout = demo(o)
    if bad in (0, 3) or good != 0:
        return "%s: demo patched=%d %s unpatched=%d %s" % (d["id"], bad, out, good, gout)
    open(o + "/patch.diff", "w").write(diff)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    dst = V + "/seeded/" + d["id"]
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(o, dst)
    return "%s: confirmed (demo exits %d: %s)" % (d["id"], bad, out.strip()[-150:])

def check(i, props):
    scratch()
    s = V + "/seeded/" + i
    props = props or [json.load(open(s + "/meta.json"))["property"]]
    p = sh("git -C %s apply %s/patch.diff" % (R, s))
    assert p.returncode == 0, p.stderr
    for c in props:
        t = time.time()
        q = sh("MATHIC_REPO=%s VERIF_SEED=%s python3 %s/run.py %s" % (R, os.environ.get("VERIF_SEED", "1"), V, c))
        v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%s %s: exit %d, %.0f s %s" % (i, c, q.returncode, time.time() - t, v[:1] or q.stdout[-300:] if q.returncode != 1 or not v else v[0]), flush=True)
    sh("git -C %s checkout -- ." % R)

if sys.argv[1] == "confirm":
    for s in sys.argv[2:]:
        print(confirm(s), flush=True)
elif sys.argv[1] == "check":
    check(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "clean":
    shutil.rmtree(SR, ignore_errors=True)
