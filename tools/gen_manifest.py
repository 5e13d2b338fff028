#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set(re.findall(r"\bc(\d\d)::PROP", open(root + "/harness/src/props/mod.rs").read()))
NOTE = {}
exec(open(root + "/tools/notes.py").read()) if os.path.exists(root + "/tools/notes.py") else None
TECH = "property-based testing: generated inputs against "
checks, na = [], []
for p in props:
    i = p["id"]
    if i[1:] not in have:
        na.append({"property": i, "reason": "check not written yet"})
        continue
    tech, note = NOTE.get(i, ("an independent oracle", "random search over generated cases; see DESIGN.md"))
    checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                   "technique": TECH + tech, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na},
          open(root + "/MANIFEST.json", "w"), indent=1)
