#!/usr/bin/env python3
"""Mutation sweep: apply small edits to a copy of /repo and see which checks notice.
   tools/mut.py [-k name-substring] [-p PROP,...]   (mutants.py holds the list)"""
import argparse, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from mutants import MUTANTS
ap = argparse.ArgumentParser()
ap.add_argument("-k", default="")
ap.add_argument("-p", default="")
ap.add_argument("-v", action="store_true")
ap.add_argument("--test", action="store_true", help="also run the repository's tests on the mutant")
a = ap.parse_args()
W = "/tmp/mut-%d" % os.getpid()
bad = 0
for name, f, old, new, props in MUTANTS:
    if a.k not in name: continue
    ps = [p for p in props if not a.p or p in a.p.split(",")]
    if not ps: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    p = os.path.join(W, f)
    s = open(p).read()
    if s.count(old) < 1:
        print("%-40s STALE (text not found)" % name); bad += 1; continue
    s = s.replace(old, new, 1)
    if "atomic." in new:
        s = s.replace("import (", "import (\n\t\"sync/atomic\"", 1) + "\nvar seen uint32\n"
    open(p, "w").write(s)
    if a.test:
        r = subprocess.run(["go", "test", "./..."], cwd=W, capture_output=True, text=True)
        print("   tests:", "pass" if r.returncode == 0 else "FAIL " + r.stdout[-300:])
    for q in ps:
        t = time.time()
        r = subprocess.run([os.path.join(V, "run/check.py"), q], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
        ok = r.returncode == 1 and ("VIOLATION property=" + q) in r.stdout
        print("%-40s %s %s (%.0f s)" % (name, q, "caught" if ok else "MISSED rc=%d" % r.returncode, time.time() - t), flush=True)
        if not ok:
            bad += 1
        if a.v or r.returncode == 2:
            print(r.stdout[-2500:])
shutil.rmtree(W, ignore_errors=True)
sys.exit(1 if bad else 0)
