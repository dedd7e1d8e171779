#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/properties.json."""
import json
c = json.load(open("contracts/properties.json"))
checks = []
for p in sorted(k for k in c if k.startswith("C")):
    e = c[p]
    checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
      "technique": e.get("technique", "contracts on the real functions, extracted on every run and discharged by Verus; input search replays and backs up what is out of reach"),
      "level": e["level"], "level_note": e["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in c["not_applicable"].items()]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
