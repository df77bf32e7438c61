#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (a tool for the author; no check uses it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read().split("\n")
i = s.index("| change | needs | breaks | caught by |") + 2
j = i
while s[j].startswith("|"): j += 1
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"], m["property"]))
open(V + "/DESIGN.md", "w").write("\n".join(s[:i] + rows + s[j:]))
