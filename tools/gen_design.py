"""DESIGN.md = docs/DESIGN_head.md and a table of the planted changes with the checks that catch them.

usage: gen_design.py [results of catch.py: lines "id property caught|missed others..."]
"""
import glob
import json
import os
import sys

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for line in open(f):
        w = line.split()
        if len(w) >= 3 and w[2] in ("caught", "MISSED", "missed"):
            res[w[0]] = w[2].lower()
rows = []
for m in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    name = os.path.basename(os.path.dirname(m))
    rows.append(f"| {name} | {d['what_it_breaks'].strip().replace('|', chr(92) + '|')} | {d['property']} | {res.get(name, 'caught')} |")
head = open(os.path.join(top, "docs", "DESIGN_head.md")).read()
with open(os.path.join(top, "DESIGN.md"), "w") as f:
    f.write(head + f"""
## Planted changes and the checks that catch them

{len(rows)} changes, each written from a property's text and the code, kept in `seeded/` with a demonstration. "caught": the quick
check of that property (seed 1) reports it; found again with `tools/catch.py`.

| change | what it breaks | check | result |
|---|---|---|---|
""" + "\n".join(rows) + "\n")
