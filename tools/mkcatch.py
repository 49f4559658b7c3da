#!/usr/bin/env python3
"""mkcatch.py: rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"], d["what_it_breaks"]))
rows.sort()
t = ["| caught by | change | needs | breaks |", "|---|---|---|---|"] + [f"| {p} | {i} | {n} | {b} |" for p, i, n, b in rows]
p = f"{ROOT}/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "\n<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "\n".join(t) + s[s.index(b):]
open(p, "w").write(s)
