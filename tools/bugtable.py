#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = set(open(os.path.join(root, "tools", "missed.txt")).read().split())
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
s = open(root + "/DESIGN.md").read()
mark = "| caught by | bug | what it breaks |"
i = s.find(mark)
if i >= 0: s = s[:i]
s = s.rstrip() + "\n\n" + mark + "\n|---|---|---|\n"
for p, d, w in sorted(rows):
    s += f"| {p} | {d}{' (missed at first)' if d in MISSED else ''} | {w} |\n"
open(root + "/DESIGN.md", "w").write(s)
print(len(rows))
