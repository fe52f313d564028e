#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed and how."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(HERE, "tools/claimed.json")))
NA = CLAIMED.pop("not_applicable", {})
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 /verif/run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"),
                       "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction, not claimed yet")})
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check copies /repo's working tree to a scratch directory, builds it there with the "
              "repository's own Makefile and sanitizers, runs the real programs as an unprivileged user in "
              "private spools, and judges what they wrote. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
