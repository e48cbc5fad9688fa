import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, technique=P[i]["technique"], level=P[i]["level"], level_note=P[i]["note"]) for i in ids if i in P],
     "not_applicable": [dict(property=i, reason="check not built yet") for i in ids if i not in P],
     "notes": "No hooks in /repo: the checks compile the unmodified headers. See DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
