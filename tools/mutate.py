#!/usr/bin/env python3
"""mutate.py [-j N] [-k REGEX] FILE.py... : applies each mutation of the files to a scratch copy of /repo and runs the named checks on it.
A file sets M = [(name, "C01 C06", file, old, new[, file, old, new...])]. Prints CAUGHT/MISSED/BUILD per mutation; summary at the end."""
import subprocess, shutil, os, re, sys, json
from concurrent.futures import ThreadPoolExecutor
B = "/tmp/mutate/"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep(name):
    d = B + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/repo"); os.makedirs(d + "/verif")
    sh(f"cd /repo && git archive HEAD | tar x -C {d}/repo")
    sh(f"cp -a /verif/harness /verif/run.sh /verif/known_findings.txt {d}/verif/")
    p = d + "/verif/harness/go.mod"; s = open(p).read(); open(p, "w").write(re.sub(r"=> \S*repo\S*", "=> " + d + "/repo", s))
    return d
def one(m):
    name, props, edits = m[0], m[1].split(), m[2:]
    d = prep(name)
    try:
        for k in range(0, len(edits), 3):
            f, a, b = edits[k:k+3]
            p = d + "/repo/" + f; s = open(p).read()
            if s.count(a) != 1: return name, "EDIT %s matches %d" % (f, s.count(a)), False
            open(p, "w").write(s.replace(a, b))
        e = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off")
        r = sh(f"cd {d}/repo && go vet ./pkg/... ./cmd/... 2>&1 | grep -v 'unkeyed\\|^#\\|^$' | grep -i 'declared and not used\\|undefined\\|imported and not\\|syntax\\|cannot use\\|mismatched' | head -5", env=e)
        if r.stdout.strip(): return name, "BUILD " + r.stdout.strip()[:300], False
        out, hit = [], False
        for p in props:
            e = dict(os.environ, VERIF_GOCACHE="/verif/build/gocache")
            r = sh(f"cd {d}/verif && ./run.sh {p}", env=e)
            v = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
            out.append(p + (" CAUGHT " + (v[0][:150] if v else "") if r.returncode == 1 else " MISSED rc=%d %s" % (r.returncode, r.stdout[-150:].replace("\n", " | "))))
            hit = hit or r.returncode == 1
            if hit: break
        return name, " ; ".join(out), hit
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; j = 2; k = None
    while a and a[0].startswith("-"):
        if a[0] == "-j": j = int(a[1])
        if a[0] == "-k": k = a[1]
        a = a[2:]
    ms = []
    for f in a:
        g = {}; exec(open(f).read(), g); ms += g["M"]
    if k: ms = [m for m in ms if re.search(k, m[0] + " " + m[1])]
    missed = []
    with ThreadPoolExecutor(j) as ex:
        for name, o, hit in ex.map(one, ms):
            print(("" if hit else "!! ") + name, o, flush=True)
            if not hit: missed.append(name)
    print(len(ms) - len(missed), "of", len(ms), "caught; missed:", *missed)
