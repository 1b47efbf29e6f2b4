#!/usr/bin/env python3
"""setup_cmd: compiles every unit of every check into the object cache."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build
from vp.checks import CHECKS

t0 = time.time()
seen, bad = set(), 0
build.prepare([(u["name"], u.get("cfg", "def"), u.get("san", "asan"), u["src"])
               for chk in CHECKS.values() for u in chk["units"]])
for pid, chk in CHECKS.items():
    for unit in chk["units"]:
        k = (unit["name"], unit.get("cfg", "def"), unit.get("san", "asan"))
        if k in seen:
            continue
        seen.add(k)
        try:
            build.link(*k, unit["src"], unit.get("link", ()))
        except build.BuildError as e:
            print(e)
            bad = 1
print("built %d units in %.0f s" % (len(seen), time.time() - t0))
sys.exit(bad)
