#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': f'python3 run.py check {i} --tier quick',
            'thorough_cmd': f'python3 run.py check {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': c.get('technique', 'property-based testing'),
            'level': 'exploration',
            'level_note': c.get('note', 'Random exploration: what was generated held; nothing is proved about inputs not generated.'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Property-based testing with an own engine (lib/vh.hpp, lib/vh_main.cpp); see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
