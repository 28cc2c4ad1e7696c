#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(H, "lib", "claims.json")))
checks = []
for pid in sorted(T["claims"]):
    c = T["claims"][pid]
    checks.append({"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": c["technique"],
                   "level": c.get("level", "model_checking"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": T["not_applicable"][p]} for p in sorted(T["not_applicable"])]}
if T.get("hooks"):
    m["hooks"] = T["hooks"]
if T.get("notes"):
    m["notes"] = T["notes"]
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.load(open(os.path.join(H, "MANIFEST.json")))
