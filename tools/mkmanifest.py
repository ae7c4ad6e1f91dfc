#!/usr/bin/env python3
"""writes MANIFEST.json for the checks that exist"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {l.split('|', 1)[0]: l.strip().split('|', 1)[1] for l in open(os.path.join(here, 'tools', 'notes.txt')) if '|' in l}
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': 'TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC',
                       'level': 'model_checking', 'level_note': notes.get(i, 'bounded: random and boundary programs, messages and host behaviours')})
    else:
        na.append({'property': i, 'reason': 'not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
