#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/spec.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from spec import PROPS, NOTES
os.chdir(os.path.dirname(H))
with open('properties.jsonl', 'w') as f:
    for p in PROPS:
        st = p['statement']
        assert len(p['title']) <= 80, p['id']
        q = dict(over=p['over'], text=p['quant'])
        a = dict(files=p['files'], state=[dict(name=n, meaning=m, where=w) for n, m, w in p.get('state', [])],
                 mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', []), hook_needed=None)
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=st, quantifier=q, why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[], notes=NOTES)
for p in PROPS:
    if 'na' in p:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                                thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                                evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
