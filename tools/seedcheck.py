#!/usr/bin/env python3
"""Run the checks of planted bugs against copies of /repo: tools/seedcheck.py [-a] [-j N] [id-substring]
(-a: every check of MANIFEST, not only the one of the bug's property)"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
jobs = int(args[args.index("-j") + 1]) if "-j" in args else 3
subs = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] != "-j")]
ids = sorted(d for d in os.listdir(V + "/seeded") if not subs or any(s in d for s in subs))
props = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
def one(i):
    W = "/tmp/seedcheck-%d-%s" % (os.getpid(), i)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    try:
        subprocess.run(["git", "-C", W, "apply", V + "/seeded/%s/patch.diff" % i], check=True)
        p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        out = []
        for q in (props if every else [p]):
            r = subprocess.run([sys.executable, V + "/run/check.py", q, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
            if r.returncode == 1 and "VIOLATION property=%s" % q in r.stdout: out.append(q)
            elif r.returncode != 0: out.append("%s?%d" % (q, r.returncode))
        return i, p, out
    finally:
        shutil.rmtree(W)
with cf.ThreadPoolExecutor(jobs) as ex:
    for i, p, out in ex.map(one, ids):
        print("%-28s %-4s %s %s" % (i, p, "caught" if p in out else "MISSED", " ".join(out)), flush=True)
