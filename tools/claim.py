#!/usr/bin/env python3
"""claim.py ID technique note: add to claimed.json and rewrite the MANIFEST"""
import json, sys, os, subprocess
d = os.path.dirname(os.path.abspath(__file__))
f = d + "/claimed.json"
j = json.load(open(f))
j[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(j, open(f, "w"), indent=1)
subprocess.run([sys.executable, d + "/mkprops.py"])
subprocess.check_call([sys.executable, d + "/mkmanifest.py"])
