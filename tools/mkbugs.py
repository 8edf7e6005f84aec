#!/usr/bin/env python3
"""mkbugs.py: writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed/results.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seed/results.json")) if os.path.exists(V + "/tools/seed/results.json") else {}
rows = ["| bug | property | what it breaks | needs | check (seed 1, quick) |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], res.get(b, "?")))
s = open(V + "/DESIGN.md").read()
a, z = "<!-- bugs -->", "<!-- /bugs -->"
i, j = s.index(a) + len(a), s.index(z)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
