#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), re.sub(r"\s+", " ", m["what_it_breaks"]), re.sub(r"\s+", " ", m["needs"])))
rows.sort()
t = "| caught by | bug | what it breaks | needs |\n|---|---|---|---|\n" + "".join("| %s | `%s` | %s | %s |\n" % tuple(x.replace("|", "\\|") for x in r) for r in rows)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
