#!/usr/bin/env python3
"""Small changes of every file against the checks: tools/automut/run.py OUT.jsonl [-j N] [-f file,...] [--sample N] [--seed N]
A mutant counts if it builds and passes the tests; its checks run (few scenarios) until one reports it."""
import argparse, json, os, random, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FILES = {
 "tree.go": "R01 R02 R05 R04 R03 R06", "engine.go": "R01 R04 R03 C01 I01 C02 S01 N01 R06 B04", "router.go": "C01 R06 C03 R03 R04 R01 P01 M02",
 "router_print.go": "P01", "context.go": "S01 C02 S03 I01 S02", "content.go": "S02 D01 Q04 S01 Q01 B01 Q05 C01 M02", "params.go": "Q02 R02", "query.go": "Q01 Q02",
 "cookie.go": "Q03 Q05", "environ.go": "E01", "util.go": "R06 M03 Q02 Q04 C01 D01 N01", "m_cors.go": "M01 S01", "m_logger.go": "S04 Q04", "m_recovery.go": "S03 S01",
 "m_static.go": "M02 M03", "option.go": "R06 C01 R04 B04", "render.go": "S02", "const.go": "S02 Q04 B01", "input.go": "Q04 Q05 Q01 I01", "binder.go": "B01 B05",
 "context_bind.go": "B01 B05", "response_advanced.go": "S05",
}
BIND = "B01 B02 B03 B04 B05"
a = argparse.ArgumentParser()
a.add_argument("out"); a.add_argument("-j", type=int, default=4); a.add_argument("-f", default=""); a.add_argument("--sample", type=int, default=0)
a.add_argument("--seed", type=int, default=1); a.add_argument("--n", type=int, default=500)
A = a.parse_args()
W0 = "/tmp/am-base"
subprocess.run(["rm", "-rf", W0]); subprocess.run(["git", "clone", "-q", "/repo", W0], check=True)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GO111MODULE="on")
subprocess.run(["go", "build", "-o", "/tmp/automut-bin", "main.go"], cwd=V + "/tools/automut", env=dict(env, GO111MODULE="off", GOFLAGS=""), check=True)
import glob
files = sorted(f for f in glob.glob("*.go", root_dir=W0) + glob.glob("binding/*.go", root_dir=W0) if not f.endswith("_test.go"))
if A.f: files = [f for f in files if any(x in f for x in A.f.split(","))]
muts = [json.loads(l) for l in subprocess.run(["/tmp/automut-bin"] + files, cwd=W0, capture_output=True, text=True, check=True).stdout.splitlines()]
SKIP = ("sub router not allowed", "need FileSystem", "green", "yellow", "unsupport")
def boring(m):
    if any(x in m["op"] for x in SKIP): return True
    if m["file"] == "m_logger.go" and m["line"] < 36: return True
    line = open(W0 + "/" + m["file"]).read().splitlines()[m["line"] - 1]
    return ("panic(" in line and m["op"].split()[0] in ("empty", "last")) or "logx." in line or line.strip().startswith("fmt.Errorf")
muts = [m for m in muts if not boring(m)]
rnd = random.Random(A.seed)
if A.sample and A.sample < len(muts): muts = rnd.sample(muts, A.sample)
else: rnd.shuffle(muts)
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        m = json.loads(l); done.add((m["file"], m["from"], m["to"], m["new"]))
muts = [m for m in muts if (m["file"], m["from"], m["to"], m["new"]) not in done]
print(len(muts), "mutants", flush=True)
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
def work(i):
    W = "/tmp/am-%d" % i
    subprocess.run(["rm", "-rf", W]); subprocess.run(["cp", "-a", W0, W], check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = W + "/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
        tags = ["-tags", "extended"] if m["file"] == "response_advanced.go" else []
        try:
            r = subprocess.run(["go", "build"] + tags + [".", "./binding"], cwd=W, env=env, capture_output=True)
            if r.returncode: res = "nobuild"
            else:
                try: r = subprocess.run(["go", "test", "-vet=off"] + tags + [".", "./binding"], cwd=W, env=env, capture_output=True, timeout=60).returncode
                except subprocess.TimeoutExpired: r = 1
                if r: res = "tests"
                else:
                    res = "SURVIVED"
                    for c in (BIND if m["file"].startswith("binding/") else FILES.get(m["file"], "R01 C01 S01 S02 Q04 B01")).split():
                        e = dict(os.environ, VERIF_REPO=W, VERIF_SCEN_CACHE="/tmp/am-scen")
                        pr = subprocess.Popen([sys.executable, V + "/run/check.py", c, "--n", str(A.n)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                        try:
                            o, _ = pr.communicate(timeout=150)
                            if pr.returncode == 1: res = c; break
                            if pr.returncode != 0: res = "error " + c + o[-300:]; break
                        except subprocess.TimeoutExpired:
                            os.killpg(pr.pid, 9); pr.wait(); res = "timeout " + c
                            subprocess.run("rm -rf %s/out/%s-%d" % (V, c, pr.pid), shell=True)
                            break
        finally:
            open(p, "wb").write(src)
        m["res"] = res
        with lock:
            with open(A.out, "a") as f: f.write(json.dumps(m) + "\n")
    subprocess.run(["rm", "-rf", W])
ts = [threading.Thread(target=work, args=(i,)) for i in range(A.j)]
for t in ts: t.start()
for t in ts: t.join()
