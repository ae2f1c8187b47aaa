#!/usr/bin/env python3
"""run.py [-j N] [-n COUNT] [-s SEED] [-c COVERPROFILE] [-o LOG] FILE.go... : samples single-point mutations (main.go here) of files of /repo,
and runs the checks of that part on a scratch copy of each until one reports it. One line per mutation in LOG."""
import subprocess, shutil, os, re, sys, json, random, threading, queue, time
B = "/tmp/automut/"
G = {"iscsit": "C06 C07 C10 C08 C12 C20 C27 C09 C11 C13 C22 C01 C02 C17 C28 C24 C23 C19".split(),
     "scsi": "C25 C15 C26 C16 C06 C14 C17 C01 C05 C03 C04 C12 C20 C22 C24 C28".split(),
     "store": "C01 C04 C05 C14 C03 C26 C24 C02 C29".split(),
     "mgmt": "C21 C24 C23 C12 C29".split()}
def group(f):
    if "port/iscsit" in f: return G["iscsit"]
    if "backingstore/" in f or "pkg/util" in f: return G["store"] + (["C11", "C10", "C15"] if "util" in f else [])
    if "pkg/scsi" in f: return G["scsi"]
    return G["mgmt"]
ENV = dict(os.environ, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
           GOCACHE="/verif/build/gocache", VERIF_SEED="1", VERIF_TIER="quick")
def sh(c, t=None, **k):
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, ""
def watch(c, t, prop, env):
    """ends the check when it has seen the first violation"""
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, env=env)
    k = threading.Timer(t, lambda: os.killpg(p.pid, 9)); k.start()
    try:
        for l in p.stdout:
            if l.startswith("[" + prop + "]") and "INCONCLUSIVE" not in l:
                os.killpg(p.pid, 9); p.wait(); return 1, l.strip()
        return p.wait(), ""
    finally: k.cancel(); p.stdout.close()
def worker(w, q, log, lock):
    d = B + str(w)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/repo"); os.makedirs(d + "/verif/build"); os.makedirs(d + "/verif/evidence"); os.makedirs(d + "/verif/replays")
    sh(f"cd /repo && git archive HEAD | tar x -C {d}/repo; cp -a /verif/harness /verif/known_findings.txt {d}/verif/")
    p = d + "/verif/harness/go.mod"; s = open(p).read(); open(p, "w").write(re.sub(r"=> \S*repo\S*", "=> " + d + "/repo", s))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + "/repo/" + m["file"]; src = open(p, "rb").read()
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        t0 = time.time(); res = "MISSED"; notes = []
        try:
            rc, o = sh(f"cd {d}/verif/harness && go build -o {d}/vh ./cmd/vh", env=ENV)
            if rc: res = "NOBUILD"
            else:
                got = False
                for c in group(m["file"]):
                    e = dict(ENV, VERIF_ROOT=d + "/verif", VERIF_GOTGT=d + "/gotgt")
                    if c in ("C21", "C23", "C24", "C29") and not got:
                        sh(f"cd {d}/verif/harness && go build -o {d}/gotgt github.com/gostor/gotgt", env=ENV); got = True
                    rc, o = watch(f"cd {d}/verif && {d}/vh check {c}", 240, c, dict(e, VERIF_VERBOSE="1"))
                    if rc == 1:
                        res = "CAUGHT " + c + " " + o[:110]; break
                    if rc != 0: notes.append(f"{c}={rc}")
        finally: open(p, "wb").write(src)
        with lock:
            log.write(f'{res.split()[0]} {m["file"]}:{m["line"]} [{m["what"]}] {m["new"]!r} | {m["text"][:120]} | {" ".join(notes)} {res} {time.time()-t0:.0f}s\n'); log.flush()
    shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; o = {"-j": "4", "-n": "100", "-s": "1", "-c": "", "-o": "/tmp/automut.log"}
    while a and a[0] in o: o[a[0]] = a[1]; a = a[2:]
    here = os.path.dirname(os.path.abspath(__file__)); os.makedirs(B, exist_ok=True)
    shutil.copy(here + "/main.go", B + "am.go"); sh(f"cd {B} && go build -o {B}am am.go", env=dict(ENV, GOFLAGS=""))
    rc, out = sh(f"{B}am {'-cover ' + o['-c'] if o['-c'] else ''} {' '.join(a)}")
    ms = [json.loads(l) for l in out.splitlines()]
    random.Random(int(o["-s"])).shuffle(ms)
    q = queue.Queue()
    for m in ms[:int(o["-n"])]: q.put(m)
    print(len(ms), "sites"); log = open(o["-o"], "a"); lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, log, lock)) for w in range(int(o["-j"]))]
    for t in ts: t.start()
    for t in ts: t.join()
