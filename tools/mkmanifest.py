#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS
NA = {}
if os.path.exists(V + "/tools/not_applicable.json"):
    NA = json.load(open(V + "/tools/not_applicable.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "TLA+ specification model-checked with TLC; logs of the real code validated against it by TLC (trace validation)"),
                       "level": c.get("level", "model_checking"),
                       "level_note": c.get("note", "") or ("TLC checks the specification exhaustively within small constants; the code is bound by trace validation of systematically enumerated and seeded random executions: " + c.get("rule", ""))})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hook in /repo: every observation goes through the public API. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
