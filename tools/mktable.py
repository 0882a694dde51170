#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "<!-- table written by tools/mktable.py -->"
s = open(V + "/DESIGN.md").read().split(M)[0].rstrip() + "\n\n" + M + "\n\n| bug | caught by | needs | what it breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); s += f"| {os.path.basename(d)} | {m['property'] if not m.get('missed') else 'nothing'} | {m['needs']} | {m['what_it_breaks']} |\n"
open(V + "/DESIGN.md", "w").write(s)
