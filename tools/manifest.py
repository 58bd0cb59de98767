#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from notes import NOTES, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 tools/check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": NOTES[i][0],
        "level": "model_checking",
        "level_note": NOTES[i][1],
    } for i in ids if i in check.PLANS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in check.PLANS],
    "notes": "All checks judge the library through its exported API; nothing in /repo is instrumented.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
