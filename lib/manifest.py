#!/usr/bin/env python3
"""writes MANIFEST.json from properties.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import PROOF, NOTE, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(PROOF):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification (Verus/z3) of the functions extracted from /repo on every run; concrete search for the failing input",
        "level": PROOF[p]["level"],
        "level_note": PROOF[p].get("note", NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: instrumented scratch copies are made where a check needs a view inside", "source_commits": []},
    "checks": checks,
    "not_applicable": NA,
    "notes": "see DESIGN.md; known-findings.txt records the two repaired defects",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
