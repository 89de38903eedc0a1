#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'], 'technique': p['technique'],
           'level': 'other', 'level_note': p['note']} for p in PROPS if not p['na']]
na = [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']]
json.dump({'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'All checks are static analyses of /repo (Go SSA); nothing of it is executed. See DESIGN.md.'},
  open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
