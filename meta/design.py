#!/usr/bin/env python3
"""Write DESIGN.md from DESIGN.in.md, known_findings.json and the planted bugs' meta.json."""
import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
MISSED = {}
f = []
for x in json.load(open("known_findings.json"))["findings"]:
    f.append("* " + (x["what"] if x["status"] == "fixed" else "KNOWN, property=%s: %s" % (x["property"], x["what"])))
s = ["| bug | property | needs | caught |", "|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    s.append("| %s | %s | %s | %s |" % (n, j["property"], j["needs"].replace("|", "/"), MISSED.get(n, "yes")))
t = open("meta/DESIGN.in.md").read().replace("@FINDINGS@", "\n".join(f)).replace("@SEEDS@", "\n".join(s))
open("DESIGN.md", "w").write(t)
