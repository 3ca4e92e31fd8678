"""Writes the table of planted bugs into DESIGN.md (run by hand)."""
import json
import os
import re

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["Each breaks the property named, passes the tests, and is caught (exit 1) by that", "property's quick check; what it took to manifest:", "", "| planted | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds: written by tools/seedtable.py -->\n", "<!-- end of seeds -->"
s = s[: s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
print(len(rows) - 5)
