#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of claimed checks in plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    c = plan.PLAN.get(p["id"])
    if not c: continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                       technique="deterministic simulation with fault injection: " + c["technique"], level=c.get("level", "exploration"),
                       level_note=c["note"]))
na = [dict(property=p["id"], reason=plan.NA.get(p["id"], "no check is built for it yet")) for p in props if p["id"] not in plan.PLAN]
m = dict(version=1, setup_cmd="./check --build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every source of nondeterminism is intercepted at link level (pthread, OpenMP runtime, heap, file and clock entry points, compiler instrumentation of memory accesses), see DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
