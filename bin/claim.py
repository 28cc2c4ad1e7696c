#!/usr/bin/env python3
"""bin/claim.py Cxx technique note: move a property to claims and regenerate MANIFEST.json"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "lib", "claims.json")
T = json.load(open(p))
T["not_applicable"].pop(sys.argv[1], None)
T["claims"][sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(T, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(H, "bin", "manifest.py")])
