#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of jobs and the notes below."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root / "driver"))
from jobs import JOBS
from notes import NOTES, NOT_APPLICABLE
checks = []
for pid in sorted(JOBS):
    n = NOTES[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": n[0],
        "level": "exploration",
        "level_note": n[1],
    })
allp = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check registered yet")} for p in allp if p not in JOBS]
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses public interfaces only (the parameter-generation modules, whose crate does not compile, are compiled into the harness from /repo's source files). Repairs of genuine defects are listed in KNOWN_FINDINGS.txt."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
