#!/usr/bin/env python3
"""Decide one property: model-check its specification, drive the real code, and
have TLC judge the recorded traces.

    run/check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

exit 0: held on everything explored; exit 1: VIOLATION line printed; 2: error.
"""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "run"))
from checks import CHECKS  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ harness

def go_env(work):
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GO111MODULE="on",
               GOWORK="off", CGO_ENABLED=env.get("CGO_ENABLED", "1"))
    return env


def build(work, race=False, tags=""):
    """Build the harness against the working tree of REPO."""
    src = os.path.join(work, "src")
    os.makedirs(src)
    for f in os.listdir(os.path.join(VERIF, "harness")):
        if f.endswith(".go"):
            shutil.copy(os.path.join(VERIF, "harness", f), src)
    mod = open(os.path.join(REPO, "go.mod")).read()
    reqs = re.findall(r"^\s*(?:require\s+)?([\w./-]+\.[\w./-]+)\s+(v\S+)", mod, re.M)
    with open(os.path.join(src, "go.mod"), "w") as f:
        f.write("module vharness\n\ngo 1.21\n\nrequire (\n\tgithub.com/meilihao/water v0.0.0\n")
        for p, v in reqs:
            f.write("\t%s %s\n" % (p, v))
        f.write(")\n\nreplace github.com/meilihao/water => %s\n" % REPO)
    shutil.copy(os.path.join(REPO, "go.sum"), src)
    out = os.path.join(work, "vh")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + (["-tags", tags] if tags else [])
    if os.environ.get("GOCOVERDIR"):  # development: what the scenarios reach
        cmd += ["-cover", "-coverpkg=vharness,github.com/meilihao/water,github.com/meilihao/water/binding"]
    cmd += ["."]
    r = subprocess.run(cmd, cwd=src, env=go_env(work), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("harness does not build:\n" + r.stdout + r.stderr)
    return out


class Driver:
    """Runs the harness; survives crashes of the code under test."""

    def __init__(self, binary, spec, seed, tier, work):
        self.bin, self.spec, self.seed, self.tier, self.work = binary, spec, seed, tier, work
        self.stats = {}
        self.k = 0

    def run(self, scen_file, n, timeout):
        """-> (trace path, None) or (None, raw scenario that crashed or hung, message)"""
        self.k += 1
        out = os.path.join(self.work, "trace%d.ndjson" % self.k)
        scratch = os.path.join(self.work, "scratch%d" % self.k)
        os.makedirs(scratch)
        env = dict(os.environ)
        env.update(self.spec.get("env", {}))
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s" % os.path.join(scratch, "race")
        cmd = [self.bin, "-family", self.spec["family"], "-profile", self.spec["profile"], "-seed", str(self.seed),
               "-n", str(n), "-tier", self.tier, "-out", out, "-scratch", scratch, "-stats", out + ".stats"]
        if scen_file:
            cmd += ["-in", scen_file]
        try:
            r = subprocess.run(cmd, cwd=scratch, env=env, capture_output=True, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver did not finish in %d s" % timeout)
        finally:
            subprocess.run(["chmod", "-R", "u+rwX", scratch])
            shutil.rmtree(scratch, ignore_errors=True)
        if r.returncode == 0:
            if os.path.exists(out + ".stats"):
                for a, b in json.load(open(out + ".stats")).items():
                    self.stats[a] = self.stats.get(a, 0) + b
            return out, None, ""
        cur = out + ".cur"
        msg = r.stderr or ""
        if len(msg) > 6000:
            msg = msg[:3000] + "\n...\n" + msg[-3000:]
        if r.returncode == 2 and "harness error" in msg:
            raise CheckError("driver: " + msg)
        if os.path.exists(cur):
            b = open(cur, "rb").read()[12:].decode(errors="replace")
            return None, b.strip(), "exit %d: %s" % (r.returncode, msg)
        raise CheckError("driver: exit %d: %s" % (r.returncode, msg))


# ---------------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, workers=8, timeout=850, heap="6g", extra=()):
    """Run TLC; -> (ok, stdout, transitions, distinct states)"""
    meta = os.path.join(work, "tlc-%s-%d" % (os.path.basename(cfg), random.SystemRandom().randrange(1 << 30)))
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-lncheck", "final", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish %s in %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    ok = "Model checking completed. No error has been found." in out
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    m = re.findall(r"Finished computing initial states: ([\d,]+)", out)
    gen -= int(m[-1].replace(",", "")) if m else 0   # transitions
    return ok, out, gen, dis


def printed(out, prefix):
    """The strings PrintT'ed with this prefix."""
    for l in out.splitlines():
        if l.startswith('"' + prefix):
            s = l[1:-1][len(prefix):]
            yield s.replace('\\"', '"').replace('\\\\', '\\')


CHUNK = 4000   # traces per TLC run: its state queue must stay in memory (on disk TLC keeps ASCII strings only)


def validate(spec, pid, trace, work, timeout=850):
    """TLC on the recorded scenarios -> (line numbers accepted, line numbers TLC
    could not evaluate, line numbers not judged, states, distinct, out).  An observation outside the
    specification's domain (say a text where a number belongs) stops TLC; such a
    trace is no behaviour of the specification, so it is isolated by bisection."""
    lines = [l for l in open(trace, encoding="utf-8") if l.strip()]
    acc, odd, skipped, outs, t0 = set(), set(), set(), [], time.time()
    tot = [0, 0]

    def judge(first, part):
        if len(odd) >= 2 or odd and time.time() - t0 > timeout / 2:   # enough to report
            skipped.update(range(first + 1, first + len(part) + 1))
            return
        f = os.path.join(work, "part.ndjson")
        with open(f, "w", encoding="utf-8") as h:
            h.writelines(part)
        env = dict(TRACE=f, PROP=spec.get("prop", pid))
        ok, out, g, d = tlc(spec["trace"] + ".tla", spec.get("cfg", "Trace.cfg"), work, env,
                            timeout=max(30, timeout - (time.time() - t0)))
        tot[0] += g
        tot[1] += d
        if ok:
            acc.update(first + int(s) for s in printed(out, "ACCEPTED "))
            outs.append(out)
            return
        if not re.search(r"TLC threw an unexpected exception|Evaluating|evaluat|Attempted to|The error occurred", out):
            raise CheckError("TLC failed on the trace:\n" + out[-6000:])
        if len(part) == 1:
            odd.add(first + 1)
            outs.append(out)
            return
        h = len(part) // 2
        judge(first, part[:h])
        judge(first + h, part[h:])

    for first in range(0, len(lines), CHUNK):
        judge(first, lines[first:first + CHUNK])
    return acc, odd, skipped, tot[0], tot[1], "\n".join(outs)


# -------------------------------------------------------------------- findings

def known_findings():
    f = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f))["findings"]


def key_of(line):
    """Identity of a scenario: its inputs, without observations."""
    d = json.loads(line)
    for f in ("obs", "obs2", "net", "built", "id", "races", "events", "open"):
        d.pop(f, None)
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------------ main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--n", type=int)
    a = ap.parse_args()
    pid, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    spec = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(VERIF, "out", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = run(a, pid, tier, spec, work, t0)
    except CheckError as e:
        log("ERROR %s: %s" % (pid, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, tier, spec, work, t0):
    thorough = tier == "thorough"
    tiers = spec.get(tier, {})
    n = a.n if a.n is not None else tiers.get("n", 200)
    rnd = random.Random("%s/%d" % (pid, a.seed))
    tot = dict(states=0, distinct=0)
    phases = {}

    # 1. exhaustive checking of the specification, which also yields scenarios
    mc_out, err = [], []

    def model():
        try:
            for m in tiers.get("mc", spec.get("mc", [])):
                ok, out, gen, dis = tlc(m["module"] + ".tla", m["cfg"], work, workers=m.get("workers", 6),
                                        timeout=m.get("timeout", 800), env=m.get("env"))
                if not ok:
                    raise CheckError("the specification itself fails (%s):\n%s" % (m["cfg"], out[-5000:]))
                mc_out.append((m, out, gen, dis))
        except CheckError as e:
            err.append(e)

    th = threading.Thread(target=model)
    cache = os.environ.get("VERIF_SCEN_CACHE")   # for tools: the model was checked before
    cached = os.path.join(cache, "%s-%s" % (pid, tier)) if cache else ""
    if not a.replay and not os.path.exists(cached):
        th.start()
    t1 = time.time()
    binary = build(work, race=spec.get("race", False), tags=spec.get("tags", ""))
    phases["build_s"] = round(time.time() - t1, 1)
    scen = os.path.join(work, "in.ndjson")
    emitted = []
    if a.replay:
        emitted = [l for l in open(a.replay).read().splitlines() if l.strip()]
        n = 0
    elif os.path.exists(cached):
        emitted = open(cached).read().splitlines()
    else:
        th.join()
        if err:
            raise err[0]
        for m, out, gen, dis in mc_out:
            tot["states"] += gen
            tot["distinct"] += dis
            ss = sorted(set(printed(out, "SCEN ")))
            cap = m.get("emit", 400)
            if len(ss) > cap:
                ss = rnd.sample(ss, cap)
            emitted += ss
        if cached:
            os.makedirs(cache, exist_ok=True)
            open(cached + ".%d" % os.getpid(), "w").write("\n".join(emitted))
            os.rename(cached + ".%d" % os.getpid(), cached)
    phases["model_s"] = round(time.time() - t1, 1)
    with open(scen, "w") as f:
        f.write("".join(s + "\n" for s in emitted))

    # 2. drive the real code
    t1 = time.time()
    drv = Driver(binary, spec, a.seed, tier, work)
    trace, crashed, msg = drv.run(scen if emitted else None, n, tiers.get("drive_timeout", 700))
    viol = []  # (scenario line, what)
    if trace is None:
        # the code under test killed or hung the driver: is it this scenario?
        one = os.path.join(work, "one.ndjson")
        open(one, "w").write(crashed + "\n")
        for _ in range(3):
            t2, c2, m2 = drv.run(one, 0, 200)
            if t2 is None:
                viol.append((crashed, "the process died or hung: " + m2[:1500]))
                break
        else:
            if re.search(r"^(exit \d+: )?(fatal error|panic):", msg, re.M):  # depends on the schedule, or on earlier scenarios
                if spec.get("race") or drv.run(scen if emitted else None, n, tiers.get("drive_timeout", 700))[0] is None:
                    viol.append((crashed, "the process died: " + msg[:1500]))
        if not viol:
            raise CheckError("driver died, not reproducible with the scenario alone: " + msg)
    phases["drive_s"] = round(time.time() - t1, 1)

    # 3. TLC judges the recorded traces
    t1 = time.time()
    lines = []
    nacc = 0
    if trace:
        lines = open(trace, encoding="utf-8").read().splitlines()
        if not lines:
            raise CheckError("no scenario was executed")
        acc, odd, skipped, gen, dis, out = validate(spec, pid, trace, work, tiers.get("validate_timeout", 800))
        tot["states"] += gen
        tot["distinct"] += dis
        nacc = len(acc)
        for j, l in enumerate(lines, 1):
            if j not in acc and j not in skipped:
                viol.append((l, ("outside the domain of " if j in odd else "not a behaviour of ") + spec["trace"]))
        if a.keep:
            open(os.path.join(work, "tlc.out"), "w").write(out)
    phases["validate_s"] = round(time.time() - t1, 1)

    # 4. report
    known = {f["scenario"]: f for f in known_findings() if f["property"] == pid}
    new, seen = [], {}
    for l, what in viol:
        try:
            k = key_of(l)
        except Exception:
            k = ""
        if k in known:
            seen[k] = known[k]
        else:
            new.append((l, what))
    for k, f in sorted(seen.items()):
        log("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    rc = 0
    if new:
        d = os.path.join(VERIF, "out", "replay")
        os.makedirs(d, exist_ok=True)
        new.sort(key=lambda x: len(x[0]))
        path = os.path.join(d, "%s-%s.ndjson" % (pid, hashlib.sha256(new[0][0].encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            for l, _ in new[:20]:
                f.write(l + "\n")
        log("rejected scenarios: %d of %d; smallest (%s):" % (len(new), len(lines), new[0][1]))
        log(new[0][0][:4000])
        log("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    samples = [json.loads(l) for l in sorted(lines, key=len)[len(lines) // 3: len(lines) // 3 + 2]]
    ev = dict(property=pid, tier=tier, seed=a.seed, level=spec.get("level", "model_checking"),
              coverage=dict(states=tot["distinct"], transitions=tot["states"],
                            traces_validated_against_impl=nacc, samples=samples,
                            model_runs=[dict(config=m["cfg"], transitions=g, states=d) for m, _, g, d in mc_out],
                            scenarios_from_model=len(emitted), scenarios_random=len(lines) - len(emitted) if trace else 0,
                            events={k: v for k, v in drv.stats.items()}, phases=phases),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    log("%s %s: %s; %d/%d traces accepted, %d transitions, %d states, %s, %.1f s" % (
        pid, tier, "VIOLATED" if rc else "held", nacc, len(lines), tot["states"], tot["distinct"], phases, time.time() - t0))
    return rc


if __name__ == "__main__":
    main()
