#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(d, "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        a, b = l.strip().split(" ", 1)
        res[a] = b
print("| seed | property | breaks | needs | caught by |\n|---|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(d, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    s = os.path.basename(os.path.dirname(f))
    print("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], res.get(s, "")))
