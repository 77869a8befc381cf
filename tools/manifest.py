#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from checks.registry import PROPERTIES, NOT_CLAIMED  # noqa

NOTE = ('Exhaustive only for the abstract model at the bounds in its .cfg; for the code, every call of every executed history (generated by '
        'TLC from the specification and by a seeded driver) is decided by the specification with exact rational arithmetic. Trusted: the '
        'projection in checks/*.py, the rational override spec/java/Rat.java (self-tested), TLC.')
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPERTIES:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'TLA+ specification checked with TLC; trace validation of executed histories against it (%s)' % ', '.join(
                sorted({m.module for m in PROPERTIES[i]['models']} | set(PROPERTIES[i].get('specs', [])))),
            'level': 'model_checking',
            'level_note': PROPERTIES[i].get('level_note', '') + NOTE})
    else:
        na.append({'property': i, 'reason': NOT_CLAIMED.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the public API exposes all observed state. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
