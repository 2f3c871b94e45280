#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from units import PROPS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                 "technique": PROPS[p]["technique"], "level": PROPS[p]["level"], "level_note": PROPS[p]["note"]} for p in ids if p in PROPS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in ids if p not in PROPS],
     "notes": "No hooks in /repo: every check builds the headers and sources of /repo's working tree unmodified."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
