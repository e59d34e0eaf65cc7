#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
T = 'contracts on the real functions discharged by a deductive verifier (VC generation over the clang AST, exact polynomial normal forms, z3)'
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
checks, na = [], []
for i in ids:
    if i in NOTES['claimed']:
        n = NOTES['claimed'][i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
                       'technique': n.get('technique', T), 'level': n.get('level', 'proof'), 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': NOTES.get('na', {}).get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Checks export the AST of /repo\'s current sources on every run (cached by content hash under build/).'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
