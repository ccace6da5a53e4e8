#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", "props", i.lower() + ".py")) and i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": "python3 checks/run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
            "technique": "TLA+ model checking (TLC) with conformance: " + NOTES[i]["technique"],
            "level": "model_checking",
            "level_note": NOTES[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Specification in spec/, driver in checks/, harness in harness/; no hooks in /repo are needed. See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
