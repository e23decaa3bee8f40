#!/usr/bin/env python3
"""Make and confirm planted bugs: tools/plant.py [id-substring]   (tools/seeds.py holds them)
Each becomes seeded/<id>/{patch.diff,demo.sh,demo_test.go,meta.json} once it is confirmed in a scratch copy:
it builds, the stable tests pass, the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
DEMO = """#!/bin/bash
# run in /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
cp "$here/demo_test.go" "$t/zz_demo_test.go" || exit 2
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)szz_demo_test.go" "$t/zz_demo_test.go" > "$t/overlay.json"
cp "$repo/go.mod" "$t/go.mod" && cp "$repo/go.sum" "$t/go.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$t/go.mod" GOPROXY=off GOSUMDB=off TMPDIR="$t"
cd "$repo" && go test -overlay "$t/overlay.json" -vet=off -count=1 %(flags)s-run '^TestZZDemo' ./%(pkg)s
"""
subs = sys.argv[1:] or [""]
base = set(l.split()[1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=x %H"], capture_output=True, text=True).stdout.splitlines())
def one(s):
    d = V + "/seeded/" + s["id"]
    W = "/tmp/plant-%d-%s" % (os.getpid(), s["id"])
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        t = open(W + "/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(W + "/" + f, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", W, "diff", "--", "*.go"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    # lines removed must be original ones
    orig = {}
    for f, _, _ in s["edits"]:
        orig[f] = set(subprocess.run(["git", "-C", "/repo", "show", "4a7e813:" + f], capture_output=True, text=True).stdout.splitlines())
    notorig = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and not any(l[1:] in o for o in orig.values())]
    pkg = s.get("pkg", "")
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=("-race " if s.get("race") else "") + ("-tags %s " % s["tags"] if "tags" in s else "")))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    def demo(cwd):
        return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
    clean = demo("/repo"); dirty = demo(W)
    b = subprocess.run(["go", "build", "./..."], cwd=W, capture_output=True, text=True)
    t = subprocess.run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=W, capture_output=True, text=True)
    ok = clean.returncode == 0 and dirty.returncode != 0 and "FAIL" in dirty.stdout and "build failed" not in dirty.stdout and b.returncode == 0 and t.returncode == 0
    print("%-28s %s clean=%d dirty=%d build=%d tests=%d %s" % (s["id"], "ok" if ok else "BAD", clean.returncode, dirty.returncode, b.returncode, t.returncode,
          ("NOT ORIGINAL: %r" % notorig) if notorig else ""), flush=True)
    if not ok:
        print((clean.stdout + clean.stderr)[-1200:] if clean.returncode else dirty.stdout[-800:], b.stderr[-500:], t.stdout[-800:])
    shutil.rmtree(W)

from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(6) as ex:
    for f in [ex.submit(one, s) for s in SEEDS if any(x in s["id"] for x in subs)]:
        if f.exception(): print(repr(f.exception()))
