#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools')
from plan import PLAN
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        q = PLAN[i]
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
            technique=q.get('technique', 'TLA+ specification checked with TLC; recorded traces of the real code validated against it'),
            level='model_checking', level_note=q.get('note', 'Design model explored exhaustively within the stated bounds; '
            'every recorded call of the real code checked against the specification by TLC. Trusts TLC, the Java operator overrides (cross-checked by ArithSelfTest) and the trace writer.')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
    notes='Specifications in spec/ (TLA+, TLC). See DESIGN.md. No hooks in /repo: only its public API is used.'),
    open(R + '/MANIFEST.json', 'w'), indent=1)
