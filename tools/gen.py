#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import PROPS, NOT_APPLICABLE, NOTES
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()]
checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    c = dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
             evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note'])
    checks.append(c)
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=NOTES),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(PROPS), 'properties', len(checks), 'claimed')
