#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and tools/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS, NOT_APPLICABLE
from props import P

ids = [q["id"] for q in P]
checks = []
for pid in ids:
    if pid not in CHECKS:
        continue
    c = CHECKS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c.get("technique", "property-based testing (rapid) against a reference model"),
        "level": c["level"],
        "level_note": c.get("note", "random search: shows violations, not their absence; trusts rapid, the Go runtime and the oracle described in DESIGN.md"),
    })
missing = [i for i in ids if i not in CHECKS and i not in NOT_APPLICABLE]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
     + [{"property": k, "reason": "check not built yet"} for k in missing],
     "notes": "No hooks: every check drives the exported API. check.py builds harness/ (a module of its own) against /repo's working tree."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing:", missing)
