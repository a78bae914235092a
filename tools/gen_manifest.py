#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
LEVEL_NOTE = {
    "C01": "Random and structured scripts against a reference encoder/parser, all scripts of up to two bytes exhaustively; no claim beyond the generated sizes (ops up to 10, pushes up to 70000 bytes, repeated up to 2400 ops).",
}
TECH = {
    "C01": "property-based testing: round-trip and differential against a reference script codec",
}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LEVEL_NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": LEVEL_NOTE[i],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is ./check.sh ID; replay a failure with ./check.sh ID --replay FILE."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
