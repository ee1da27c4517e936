#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
p = os.path.join(R, "tools/caught.json")
if os.path.exists(p):
    c = json.load(open(p))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(d)); i = d.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), c.get(i, m["property"])))
s = open(os.path.join(R, "DESIGN.md")).read()
import re
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "\n".join(rows))
else:
    s = re.sub(r"\| bug \| property.*?\n\n", "\n".join(rows) + "\n\n", s, flags=re.S)
open(os.path.join(R, "DESIGN.md"), "w").write(s)
