#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification checked with TLC; " + NOTES[i]["technique"],
                       "level": "model_checking", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
