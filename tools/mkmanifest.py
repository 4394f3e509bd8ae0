#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in run.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Cases are generated by TLC from the TLA+ specification, carried out in the real code, and the recorded results are compared with the "
        "specification by TLC; bounded random and enumerated sampling, no claim beyond the cases run. Trusted: TLC, the driver's dump of public results.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=getattr(run, "TECHNIQUE", {}).get(i, "TLA+ specification checked with TLC, replayed in and compared with the real code"),
                           level=getattr(run, "LEVEL", {}).get(i, "exploration"), level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
