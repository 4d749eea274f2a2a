#!/usr/bin/env python3
"""gen_design.py RESULTS.jsonl: renews the table of planted bugs in DESIGN.md from plant.py's results."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
last = {}
for f in sys.argv[1:]:
    for l in open(f):
        r = json.loads(l)
        if "caught" in r:
            last[r["id"]] = r
rows = ["<!-- planted -->", "| Planted bug | Breaks | What it does | Found by its check |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    r = last.get(i)
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {'yes' if r and r['caught'] else 'no' if r else 'not run'} |")
rows.append("<!-- /planted -->")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
table = "\n".join(rows)
s = s.replace("@@TABLE@@", table) if "@@TABLE@@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: table, s, flags=re.S)
open(p, "w").write(s)
