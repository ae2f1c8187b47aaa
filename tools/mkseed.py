#!/usr/bin/env python3
"""mkseed.py DEF.py... : builds /verif/seeded/<id> from definitions and validates each one.
A definition file sets: id, property, edits=[(file, old, new)], needs, breaks, demo (python text using mini.py, or text of demo.go if lang='go')."""
import json, os, shutil, subprocess, sys
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
SHELL = """#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python3 "$D/demo.py"
"""
GO = """import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mini import *
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local")
cwd = os.getcwd()
with open(TMP + "/o.json", "w") as h:
    here = os.path.dirname(os.path.abspath(__file__))
    json.dump({"Replace": {cwd + "/cmd/zzdemo/main.go": here + "/demo.go.txt", cwd + "/cmd/zzdemo/mini.go": here + "/mini.go.txt"}}, h)
r = subprocess.run(["go", "build"] + @F@ + ["-overlay", TMP + "/o.json", "-o", TMP + "/d", "./cmd/zzdemo"], env=env)
if r.returncode: sys.exit(3)
sys.exit(subprocess.run([TMP + "/d", TMP], cwd=TMP, timeout=200).returncode)
"""
def one(f, tests):
    d = {}
    exec(open(f).read(), d)
    clean()
    o = "/verif/seeded/" + d["id"]
    os.makedirs(o, exist_ok=True)
    for p, a, b in d["edits"]:
        s = open(R + "/" + p).read()
        assert s.count(a) == 1, (d["id"], p, s.count(a), a)
        open(R + "/" + p, "w").write(s.replace(a, b))
    res = {}
    try:
        diff = sh("git -C /repo diff").stdout
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(SHELL); os.chmod(o + "/demo.sh", 0o755)
        shutil.copy("/verif/tools/mini.py", o + "/mini.py")
        if d.get("lang") == "go":
            open(o + "/demo.go.txt", "w").write(d["demo"]); open(o + "/demo.py", "w").write(GO.replace("@F@", repr(d.get("flags", []))))
            shutil.copy("/verif/tools/mini.go.txt", o + "/mini.go.txt")
        else:
            open(o + "/demo.py", "w").write("import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom mini import *\n" + d["demo"])
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if b.returncode: print(b.stderr[-600:])
        m = sh("bash %s/demo.sh" % o, cwd=R); res["demo_patched"] = m.returncode; print("   patched:", (m.stdout + m.stderr)[-200:].strip())
        c = sh("/verif/run.sh " + d["property"], cwd="/verif"); res["check"] = c.returncode
        print("   check:", [l[:230] for l in c.stdout.splitlines() if "VIOLATION" in l][:3], c.stdout[-150:] if c.returncode != 1 else "")
        if tests:
            sh("bash /opt/vp/test.sh /tmp/w/so.json"); t = sh("python3 /tmp/w/cmp.py /tmp/w/so.json"); res["tests"] = t.stdout.strip()
    finally:
        sh("git -C /repo checkout -- .")
    m = sh("bash %s/demo.sh" % o, cwd=R); res["demo_clean"] = m.returncode
    if m.returncode: print("   clean:", (m.stdout + m.stderr)[-300:])
    # original lines touched?
    orig = False
    for l in sh("git -C /repo diff --no-index /dev/null /dev/null").stdout: pass
    import re
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m2 = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
        if m2: n = int(m2.group(1)) - 1
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (n, n, cur)).stdout.startswith("^8eab"): orig = True
        elif l.startswith(" "): n += 1
    res["orig"] = orig
    good = res["build"] == 0 and res["demo_patched"] not in (0, 3) and res["demo_clean"] == 0 and orig and (not tests or res["tests"] == "130 missing []")
    print(d["id"], d["property"], "OK" if good else "**BAD**", "CAUGHT" if res["check"] == 1 else "**MISSED**", res)
    clean()
tests = "-n" not in sys.argv
for f in sys.argv[1:]:
    if f != "-n": one(f, tests)
