#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from plan import PLAN
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=PLAN[i].get("technique", "runtime monitors (independent oracle) over randomised workloads, ASan+UBSan and library assertions on"),
                           level="exploration",
                           level_note=PLAN[i].get("note", "Sound for the executions observed (every report is a real execution of the real code); "
                           "no claim beyond the explored cases. Trusts the oracle in harness/, the compiler sanitizers and the libsc alias shim.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="Checks build the complete library from /repo's CMake project (cmake/inject.cmake) in build/<flavour>; see DESIGN.md.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
