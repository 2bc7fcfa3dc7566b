#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the rules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
        if p['na'] or not os.path.exists(os.path.join(V, 'rules', p['id'].lower() + '.py')):
            na.append({'property': p['id'], 'reason': p['na'] or 'no check registered yet'})
        else:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), len(checks), len(na))
