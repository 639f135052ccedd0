#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           technique=plan.TECH.get(i, plan.TECH_DEFAULT), level="model_checking",
                           level_note=plan.NOTE.get(i, plan.NOTE_DEFAULT)))
    else:
        na.append(dict(property=i, reason=plan.NA.get(i, "not yet covered: work in progress")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, TLC). No hooks in /repo: the public callback API and the step log are the "
               "linearization points. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
