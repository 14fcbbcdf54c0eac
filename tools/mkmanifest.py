#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the repository's source (pyvc verification conditions, z3/cvc5), with seeded native runs of the same contracts as bounded stand-in and replay"
L = {}
NA = {}
exec(open(os.path.join(H, 'tools', 'levels.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'levels.py')) else None
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in L:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=TECH, level=L[i][0], level_note=L[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check is built for this property yet")))
man = dict(version=1, setup_cmd="chmod +x check && ./check --selftest", checks=checks, not_applicable=na,
           notes="Known findings and repaired defects: known_findings.json. See DESIGN.md.")
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
