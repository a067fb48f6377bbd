#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
rows = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); rows.setdefault(m["property"], []).append((f.split("/")[-2], m["what_it_breaks"].strip()))
out = ["| check | planted bugs it catches |", "|---|---|"]
for p in sorted(rows):
    out.append(f"| {p} | " + "; ".join(f"`{i}`: {w}" for i, w in rows[p]).replace("|", "/").replace("\n", " ") + " |")
s = open("/verif/DESIGN.md").read()
h = "## Planted bugs and the checks that catch them\n"
i = s.index(h)
intro = s[i:].split("\n\n")[1]
open("/verif/DESIGN.md", "w").write(s[:i] + h + "\n" + intro + "\n\n" + "\n".join(out) + "\n")
