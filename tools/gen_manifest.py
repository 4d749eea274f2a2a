#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that are configured."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import CONF
from notes import TECHNIQUE, NOTE, PENDING

ROOT = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in ids:
    if p in CONF:
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=TECHNIQUE[p], level="exploration", level_note=NOTE[p]))
manifest = dict(version=1, setup_cmd="python3 check.py build", checks=checks,
                not_applicable=[dict(property=p, reason=PENDING.get(p, "no check yet")) for p in ids if p not in CONF],
                notes="No hooks in /repo: everything is observed through the public interface. Run from /verif; builds go to /verif/target.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
