#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_data.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_data import P  # noqa: E402

with open(os.path.join(TOP, 'properties.jsonl'), 'w', encoding='utf8') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        rec = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                'observe_at': p['observe'],
                'hook_needed': None,
            },
        }
        if p['state']:
            rec['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        fh.write(json.dumps(rec, ensure_ascii=True) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(TOP, 'props', p['id'] + '.py')):
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py {} quick'.format(p['id']),
            'thorough_cmd': 'python3 check.py {} thorough'.format(p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        })
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(TOP, 'MANIFEST.json'), 'w', encoding='utf8') as fh:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
               'notes': 'Pure property-based testing and fuzzing; engine in vlib/, one module per property in props/. No hooks in /repo are needed.'}, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(na), 'not yet')
