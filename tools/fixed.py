"""usage: fixed.py <property> <commit> <what failed>; adds a repaired defect to KNOWN_FINDINGS.json"""
import json
import os
import sys
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json")
data = json.load(open(path))
data["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(data, open(path, "w"), indent=1)
