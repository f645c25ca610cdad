#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from their meta.json and the column of who catches them."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
old = dict(re.findall(r"^\| (c\d\d-[\w-]+ ?\*?) \|.*\| ([^|]*) \|$", s, re.M))
by = {k.rstrip(" *"): (k, v) for k, v in old.items()}
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    k, v = by.get(i, (i, m["property"]))
    rows.append(f"| {k} | {m['needs']} | {v} |")
a = s.index("| bug | what it needs | caught by |")
b = s.index("\n\n", a)
s = s[:a] + "| bug | what it needs | caught by |\n|-----|---------------|-----------|\n" + "\n".join(rows) + s[b:]
open(p, "w").write(s)
