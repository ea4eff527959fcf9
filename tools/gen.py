#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p.get('mech', [])],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash run.sh --build',
       'checks': [{'property': p['id'], 'quick_cmd': 'bash run.sh ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
       'notes': 'One analyzer (analyzer/, Go, x/tools SSA) decides every property from /repo source; nothing of /repo is executed. No hooks.'}
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed,', len(NA), 'not applicable')
