#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from config import PROPS
TECH = "deterministic simulation with fault injection: seeded search over {}"
def entry(pid):
    p = PROPS[pid]
    return {"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid, "technique": TECH.format(p["over"]), "level": "exploration", "level_note": p["note"]}
NA = [
 {"property": "C24", "reason": "pure functions of their arguments: no scheduling, clock, storage or fault can influence the result, so a simulator has nothing to decide (they are exercised indirectly by C02, C06, C10 and C21)"},
 {"property": "C25", "reason": "pure functions over an in-memory sample without scheduling, time or I/O; simulation cannot add anything to plain input generation (benchmark reporting that uses them under a simulated clock is decided by C20)"},
]
ids = ["C%02d" % i for i in range(1, 30)]
na = NA + [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS and i not in ("C24", "C25")]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [entry(i) for i in ids if i in PROPS], "not_applicable": na,
           "notes": "No hooks in /repo: library sources are compiled unchanged with compile-time instrumentation and linked against the simulator in sim/."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
