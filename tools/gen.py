#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
na = []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": c["technique"],
                       "level": c.get("level", "model_checking"),
                       "level_note": c["level_note"]})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1,
     "setup_cmd": "python3 check.py --selftest",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds its explorer from /repo's current tree; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
