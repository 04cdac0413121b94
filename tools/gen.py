#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from tools/props.py (hand-written data)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['for']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/program.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'] + ' thorough',
                 'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in P],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
