#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                                   observe_at=[w for _, w in mech]),
                  note=note, technique=technique))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'technique')}) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, 'mon', 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='bash run.sh {} --tier quick'.format(p['id']),
                           thorough_cmd='bash run.sh {} --tier thorough'.format(p['id']),
                           evidence_file='evidence/{}.json'.format(p['id']),
                           technique=p['technique'], level='exploration', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the monitors observe the public API from outside, or wrap public functions at run time inside the check process. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [n['property'] for n in na])
