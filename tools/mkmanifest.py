#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and run/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/run")
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC enumerates the bounded model completely and judges every recorded execution of the real code against "
        "the specification; outside the model's constants the assurance is that of the executions driven "
        "(scenarios from the model plus seeded random ones). Trusts TLC, the harness that drives the public API, "
        "and Go's net/http and regexp.")
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="not claimed yet: its specification and harness are not finished"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run/check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 run/check.py %s --tier thorough" % p["id"],
                       technique=c.get("technique", "TLA+ model checked with TLC; TLC trace validation of the real code (%s)" % c["trace"]),
                       level=c.get("level", "model_checking"), level_note=c.get("note", NOTE)))
m = dict(version=1, setup_cmd="python3 run/setup.py",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the public API exposes what the specification needs. Repairs of defects found are the fix: commits listed in KNOWN_FINDINGS.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
