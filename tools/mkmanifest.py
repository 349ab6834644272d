#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
from plan import PLAN  # noqa
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": pl["technique"],
            "level": pl["level"],
            "level_note": pl["note"],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1,
     "setup_cmd": "python3 build.py --self-test",
     "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring: one driver per property runs the real library under sanitizers with generated "
              "workloads; see DESIGN.md. No hooks in /repo are needed; /repo carries fix: commits only."}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
