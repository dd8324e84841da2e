#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 run.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
            technique=c.get("technique", "property-based testing with shrinking"), level="exploration",
            level_note=c.get("note", "Random search against an explicit oracle; no violation among the generated cases, no proof. Trusts dune-common, dune-geometry, dune-grid, dune-localfunctions and the harness.")))
    else:
        na.append(dict(property=i, reason=getattr(__import__("checks"), "NA", {}).get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import checks'", checks=checks, not_applicable=na,
    notes="run.py compiles the harnesses of a property against /repo's working tree (header-only library) and runs them; no hooks in /repo are needed."),
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
