#!/usr/bin/env python3
"""Puts DESIGN.md together: tools/design/*.md, the findings file and the planted changes."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/tools/design/"
part = lambda n: open(D + n).read().rstrip() + "\n\n"
o = part("common.md") + part("properties.md") + part("cost.md") + part("limits.md")
o += "## Defects found and repaired\n\nEach is a `fix:` commit in /repo, listed in known_findings.jsonl (a fixed entry\nsuppresses nothing). No finding is open; nothing is suppressed.\n\n| property | commit | what failed |\n|---|---|---|\n"
for l in open(V + "/known_findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed: property="):
        p, c, w = l[len("fixed: property="):].split(" ", 2)
        o += "| %s | %s | %s |\n" % (p, c, w.replace("|", "\\|"))
o += "\n" + part("planted.md")
o += "| planted change | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n"
caught = json.load(open(D + "caught.json"))
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    j = json.load(open(m))
    o += "| %s | %s | %s | %s | %s |\n" % (i, j["property"], j["what_it_breaks"], j["needs"], caught.get(i, j["property"]))
o += "\n" + part("campaign.md")
open(V + "/DESIGN.md", "w").write(o.rstrip() + "\n")
