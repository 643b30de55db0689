#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
LEVEL = {}
exec(open(os.path.join(HERE, "levels.py")).read())
checks, na = [], []
for i in ids:
    if i in LEVEL:
        technique, note = LEVEL[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": technique, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, harness in harness/, entry point check.sh <id>. No hooks in /repo are needed: the public API exposes the state."},
          open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
