#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md, from tools/catches.txt: ID yes (caught by the check as it was),
late (caught only after the check was strengthened), or no."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check | caught (quick tier) | needs |", "|---|---|---|---|"]
for line in sorted(open(os.path.join(here, "tools", "catches.txt"))):
    name, how = line.split()
    m = json.load(open(os.path.join(here, "seeded", name, "meta.json")))
    rows.append(f"| {name} | {m['property']} | { {'yes': 'yes', 'late': 'after strengthening', 'no': 'no'}[how] } | {m['needs']} |")
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
mark = "<!-- table -->"
open(path, "w").write(text.split(mark)[0] + mark + "\n\n" + "\n".join(rows) + "\n")
