#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './setup',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: unexported functions that the repository\'s own tests call are reached with go build -overlay, and the schedule '
              'explorer instruments a copy of the working tree. tools/genmanifest.py writes this file from tools/checks.py.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        s = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i} --tier thorough',
                            'evidence_file': f'evidence/{i}.json', 'technique': s['technique'], 'level': s['level'], 'level_note': s['level_note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'the check is not built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
