#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (one row per claimed property)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if n and n.get('claimed', True):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification: contracts on the real functions of /repo, verification conditions generated from the current source by symbolic execution over Python semantics (pyvc), discharged by z3; refutations replayed on the real code',
                           level=n['level'], level_note=n['note']))
    else:
        na.append(dict(property=i, reason=(n or {}).get('reason', 'not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
