#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, PENDING
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN or i in PENDING:
        continue
    p = PLAN[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="harness/build.sh asan omp tsan plain mt", checks=checks,
         not_applicable=[dict(property=i, reason=PENDING.get(i, "no check")) for i in ids if i in PENDING or i not in PLAN],
         notes="Harness sources and build files live in /verif/harness; every check rebuilds /repo's current sources. No hooks in /repo are needed: the monitors observe inputs and outputs at the library boundary, sanitizers observe memory, and an OpenMP runtime shim in the harness controls the thread team.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
