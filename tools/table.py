#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md; results of plant.py --check are read from tools/caught.txt."""
import os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
from bugs import BUGS
caught = dict(l.split() for l in open(R + "/tools/caught.txt")) if os.path.exists(R + "/tools/caught.txt") else {}
s = open(R + "/DESIGN.md").read()
m = "<!-- planted -->\n"
s = s[:s.index(m) + len(m)] + "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
for b in sorted(BUGS, key=lambda b: (b["property"], b["id"])):
    if os.path.exists(f"{R}/seeded/{b['id']}"):
        s += f"| {b['id']} | {b['property']} | {b['breaks']} | {caught.get(b['id'], 'not run')} |\n"
open(R + "/DESIGN.md", "w").write(s)
