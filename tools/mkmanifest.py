#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and the notes below."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "harness"))
from registry import REGISTRY, NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in ids:
    if p in REGISTRY:
        checks.append({"property": p,
            "quick_cmd": "python3 run.py %s --tier quick" % p,
            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
            "technique": "TLA+ specification checked with TLC; " + NOTES[p][0],
            "level": "model_checking", "level_note": NOTES[p][1]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "Check under construction in this revision.")}
      for p in ids if p not in REGISTRY]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks: one runner (run.py), specs in spec/, TLC generates cases/behaviours, the real code of /repo replays them, TLC validates the recordings. No hooks: everything is observed at the public API."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
