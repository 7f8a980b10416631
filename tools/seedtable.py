#!/usr/bin/env python3
"""Table of the planted bugs for DESIGN.md (printed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property, caught by its quick check | needs | breaks |\n|---|---|---|---|")
for s in ("seeded", "seeded-asm"):
    for i in sorted(os.listdir(os.path.join(V, s))):
        m = json.load(open(os.path.join(V, s, i, "meta.json")))
        print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
