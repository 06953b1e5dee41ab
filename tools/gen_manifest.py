"""Writes MANIFEST.json: a check for each property that plans.py has a plan for."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
import texts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        t, note = texts.T[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t, "level": plans.LEVELS.get(i, "model_checking"), "level_note": note + texts.COMMON})
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "the check is being built")})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC and bound to the code by the harness in"
              " harness/ (no hooks in /repo are needed: the library is generic over elements, hashers and"
              " pointer kinds, and everything is observed through those). See DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
