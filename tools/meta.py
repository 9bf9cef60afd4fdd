#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

TRUST = (' Trusts TLC, the decimal arithmetic override of module Dec, the '
         'driver that calls the code and records what it returned.')

lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['q']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']]}}))
    assert len(p['title']) <= 80, p['title']
    if p['id'] in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' %
        p['id'],
        'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' %
        p['id'],
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'] + TRUST})
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as h:
    h.write('\n'.join(lines) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as h:
    json.dump({
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python check.py --setup',
        'checks': checks,
        'not_applicable': na,
        'notes': 'Every check copies /repo/src to a scratch directory, '
                 'rebuilds the Cython extensions there when they are out of '
                 'date, runs TLC on the bounded model and on the traces '
                 'recorded from the real code. No hooks in /repo.'},
        h, indent=1)
    h.write('\n')
print(len(lines), 'properties', len(checks), 'checks')
