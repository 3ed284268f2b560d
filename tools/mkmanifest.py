#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the contracts present (run by hand after adding contracts)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = json.load(open(os.path.join(H, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    lv = LEVEL.get(i)
    if lv and "na" not in lv:
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                       "technique": lv.get("technique", "contract-based deductive verification of the real functions "
                                    "(pyvc VC generator over the running source, z3/cvc5)"),
                       "level": lv["level"], "level_note": lv["note"]})
    else:
        na.append({"property": i, "reason": lv["na"] if lv else "no contract built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "PYVC_REPO selects another checkout (default /repo). Every check regenerates all obligations from the "
                    "current source."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
