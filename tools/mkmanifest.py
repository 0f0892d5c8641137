#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
from common import VERIF
from properties import PROPS
driver.load()
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': driver.CHECKS[p['id']]['technique'], 'level': driver.CHECKS[p['id']]['level'], 'level_note': driver.CHECKS[p['id']]['note']}
                for p in PROPS if p['id'] in driver.CHECKS],
     'not_applicable': [{'property': p['id'], 'reason': 'check not finished yet'} for p in PROPS if p['id'] not in driver.CHECKS],
     'notes': 'TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 3, p['id']
