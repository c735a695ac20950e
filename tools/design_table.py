#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change (`seeded/`) | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = f"{root}/DESIGN.md"
s = open(p).read()
mark = "<!-- planted -->\n"
s = s[: s.index(mark) + len(mark)] + "\n".join(rows) + "\n"
open(p, "w").write(s)
