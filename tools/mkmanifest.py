#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p not in PLAN:
        continue
    pl = PLAN[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": pl.get("technique", "TLA+ specification checked with TLC; traces of the real code (TLC-enumerated and random schedules) validated against it"),
                   "level": pl.get("level", "model_checking"),
                   "level_note": pl.get("note", "The design modules are checked exhaustively within small bounds; the real code is driven through every schedule TLC enumerates and through seeded random ones, and TLC validates each recorded trace. Trusts the harness's projection of blocks and messages. Assumes: " + "; ".join(pl.get("assumptions", ["nothing further"])) + ".")})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in PLAN]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the code under test is driven through its exported API, over loopback connections where it talks to a network. Known findings and repaired defects: known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
