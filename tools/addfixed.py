#!/usr/bin/env python3
"""addfixed.py CXX <commit> <what failed>: record a repaired defect."""
import json, sys, pathlib
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3]))
p.write_text(json.dumps(d, indent=1) + "\n")
