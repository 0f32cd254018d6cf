#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (reads seeded/, which no check does)."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | caught by | needs |\n|---|---|---|")
for i in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, i, "meta.json")))
    print("| %s | %s | %s |" % (i, m["property"], m["needs"]))
