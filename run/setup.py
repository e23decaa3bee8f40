#!/usr/bin/env python3
"""Nothing to install: check that the tools are there and every module parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["go", "version"], ["java", "-version"]):
    subprocess.run(c, check=True, capture_output=True)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(f for f in os.listdir(V + "/spec") if f.endswith(".tla"))
r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY"] + mods, cwd=V + "/spec", capture_output=True, text=True)
if "*** Errors" in r.stdout or "Fatal" in r.stdout or r.returncode:
    print(r.stdout[-3000:])
    sys.exit(1)
print("ok:", len(mods), "modules")
