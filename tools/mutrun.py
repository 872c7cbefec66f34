#!/usr/bin/env python3
"""mutrun.py MUTANTS.jsonl RESULTS.jsonl [workers] [scale] — runs every check on each mutant that compiles and
passes the suite (scratch copies under /tmp/mut); a development aid, no registered check uses it."""
import json, os, shutil, subprocess, sys, threading, queue, time, re
src, out = sys.argv[1:3]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 4
SCALE = float(sys.argv[4]) if len(sys.argv) > 4 else 0.2
V = "/verif"
GO = "/usr/local/bin/go1.27.3"
quick = {}
for f in os.listdir(V + "/harness"):
    for m in re.finditer(r'ID:\s*"(C\d\d)",\s*Quick:\s*(\d+)', open(f"{V}/harness/{f}").read()):
        quick[m[1]] = int(m[2])
ids = sorted(quick)
first = {
    "tree.go": "C01 C02 C23 C28", "router.go": "C23 C05 C01 C28 C24 C04", "engine.go": "C04 C11 C24 C03 C01 C21",
    "context.go": "C08 C06 C26 C30", "content.go": "C09 C08 C25 C20", "cookie.go": "C22", "environ.go": "C26",
    "m_cors.go": "C12", "m_logger.go": "C15", "m_recovery.go": "C10", "m_static.go": "C14 C13", "option.go": "C24 C03",
    "params.go": "C20 C02", "query.go": "C20 C18 C21", "render.go": "C09", "response.go": "C08", "response_advanced.go": "C30",
    "router_print.go": "C28", "util.go": "C27 C15 C23", "binding/json.go": "C29", "binding/xml.go": "C29",
    "binding/validator.go": "C19", "binding/binding.go": "C18 C19", "binding/form.go": "C18 C16 C21 C35", "binding/mapping.go": "C35",
}
heavy = ["C10", "C15", "C07", "C28", "C24", "C29", "C30", "C32"]
least = {"C15": 1.25, "C32": 2.5}
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/tmp/mut/cache", CGO_ENABLED="1", HOME="/root")
done = set()
if os.path.exists(out):
    done = {json.loads(l)["id"] for l in open(out)}
q = queue.Queue()
for l in open(src):
    m = json.loads(l)
    if m["id"] not in done:
        q.put(m)
lock = threading.Lock()
of = open(out, "a")

def run(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"

def worker(k):
    d = f"/tmp/mut/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/verif/evidence")
    shutil.copytree("/repo", d + "/repo")
    shutil.copytree(V + "/harness", d + "/verif/harness")
    shutil.copy(V + "/known_findings.json", d + "/verif/")
    s = open(d + "/verif/harness/go.mod").read().replace("=> /repo", f"=> {d}/repo")
    open(d + "/verif/harness/go.mod", "w").write(s)
    shutil.copy(d + "/repo/go.mod", d + "/r.mod")
    shutil.copy(d + "/repo/go.sum", d + "/r.sum")
    e1 = dict(env, GOFLAGS=f"-mod=mod -modfile={d}/r.mod", TMPDIR=d)
    e2 = dict(env, GOFLAGS="-mod=mod", TMPDIR=d)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        t0 = time.time()
        p = f"{d}/repo/{m['file']}"
        orig = open(p, "rb").read()
        open(p, "wb").write(orig[:m["off"]] + m["new"].encode() + orig[m["end"]:])
        res, log = None, ""
        tried = []
        try:
            rc, o = run([GO, "build", "./", "./binding"], d + "/repo", e1, 120)
            if rc == 0:
                rc, o = run([GO, "build", "-tags", "extended", "./"], d + "/repo", e1, 120)
            if rc:
                res = "nocompile"
            else:
                rc, o = run([GO, "test", "-vet=off", "-count=1", "-timeout", "60s", "./", "./binding"], d + "/repo", e1, 150)
                if rc:
                    res = "suite"
            if res is None:
                rc, o = run([GO, "build", "-o", d + "/wv", "."], d + "/verif/harness", e2, 200)
                if rc:
                    res, log = "nobuild", o[-600:]
            if res is None:
                f = first.get(m["file"], "C16 C17 C29").split()
                order = [i for i in f if i != "C30"] + [i for i in ids if i not in f and i not in heavy] + [i for i in heavy if i not in f or i == "C30"]
                for i in order:
                    if i == "C30":
                        rc, o = run([GO, "build", "-tags", "extended", "-o", d + "/wv", "."], d + "/verif/harness", e2, 200)
                    n = max(40, int(quick[i] * max(SCALE, least.get(i, 0)) * (0.4 if i in heavy else 1)))
                    rc, o = run(["bash", "-c", f"ulimit -v 20000000; exec {d}/wv -prop {i} -verif {d}/verif -n {n} -workers 2"], d, e2, 240)
                    if rc == 1:
                        res, log = i, o[:400]
                        break
                    if rc != 0:
                        tried.append(f"{i}:{rc}")
                if res is None:
                    res = "SURVIVED"
        finally:
            open(p, "wb").write(orig)
        m["res"], m["log"], m["odd"], m["t"] = res, log, tried, round(time.time() - t0, 1)
        with lock:
            of.write(json.dumps(m) + "\n")
            of.flush()

ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
