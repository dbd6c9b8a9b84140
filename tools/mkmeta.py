#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V)
from checks import CHECKS
S, I, H, F, C = 'schedules', 'inputs', 'histories', 'faults', 'configurations'
P = []
def prop(id, title, stmt, over, text, why, files, mech, state=None, observe=None, tech=None, note=None):
    a = dict(files=files, mechanism=mech)
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append(dict(p=dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech=tech, note=note))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x['p']) + '\n')
M = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[])
for x in P:
    i = x['p']['id']
    if i not in CHECKS: M['not_applicable'].append(dict(property=i, reason=x['note'] or 'no check yet')); continue
    M['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
        technique=x['tech'], level=CHECKS[i].get('level', 'exploration'), level_note=x['note'], evidence_file='evidence/%s.json' % i))
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(P), 'properties,', len(M['checks']), 'checks')
