#!/usr/bin/env python3
"""mkdesign.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
t = "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
s = open(V + "/DESIGN.md").read()
a = s.index("| caught by | bug |"); b = s.index("\n\n", a)
open(V + "/DESIGN.md", "w").write(s[:a] + "| caught by | bug | needs | breaks |\n|---|---|---|---|\n" + t.rstrip("\n") + s[b:])
