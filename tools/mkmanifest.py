#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (checks.py) and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks

TECH = ("TLA+ specification: TLC generates behaviours from it, they are replayed in the real code, "
        "and TLC judges the recording against a trace specification")
NOTES = getattr(checks, "NOTES", {})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p,
                 "thorough_cmd": "python3 check.py %s --thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": TECH, "level": "model_checking",
                 "level_note": NOTES.get(p, "bounded: the behaviours TLC generated from the specification")}
                for p in props if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in checks.CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
