#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md and the planted changes' meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(V, "tools", "design.md")).read()
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
p = os.path.join(V, "tools", "caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), caught.get(i, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write(body.replace("@@SEEDED@@", "\n".join(rows)))
