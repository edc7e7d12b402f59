#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, sys
sys.path.insert(0, "/verif")
from ucv import props
NOTE = {}
TECH = "TLA+ specification checked with TLC; behaviours of the specification replayed into the code and recorded executions of the code validated by TLC against the specification"
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": TECH, "level": "model_checking",
                 "level_note": props.NOTES.get(p, "bounded models explored completely by TLC; larger programs and inputs are sampled")} for p in ids if p in props.CHECKS],
     "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in ids if p not in props.CHECKS]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
