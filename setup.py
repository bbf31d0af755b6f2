#!/usr/bin/env python3
"""setup_cmd: warm the compiler cache (a convenience; every check builds for itself what it needs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from plan import PLAN
need = {}
for p in PLAN.values():
    for s in p["jobs"]("quick", 1):
        need.setdefault(s["flavour"], set()).add(s["prog"])
os.makedirs(check.ROOT + "/build", exist_ok=True)
log = check.ROOT + "/build/setup.log"
open(log, "w").close()
ok = all([check.build(f, progs, log) for f, progs in need.items()])
print("setup:", "ok" if ok else "build failed, see " + log)
sys.exit(0 if ok else 1)
