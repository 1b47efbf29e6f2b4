#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp.checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vp/setup.py", "checks": [], "not_applicable": []}
SRC = []
m["hooks"] = {"guard": "none: no hook is needed in /repo (main() is renamed with -Dmain=swampd_main, "
              "buses, files and clocks are replaced at link time)",
              "enable": "vp/build.py compiles /repo's working tree against /verif/stubs", "source_commits": SRC}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "runtime monitoring: reference-model oracle over instrumented "
                     "(ASan+UBSan) random executions of the real code"),
        "level": "exploration",
        "level_note": c.get("note", "Random executions only: silence means no violation in the executions "
                      "counted in the evidence. Trusts the reference model in harness/, the in-memory "
                      "stand-ins for D-Bus, and the compilers' sanitizers."),
    })
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
