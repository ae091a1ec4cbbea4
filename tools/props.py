#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after an edit)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    P[-1]['_t'] = technique; P[-1]['_n'] = note
    if na: NA[id] = na

exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks = []
import subprocess
have = set(open(os.path.join(ROOT, 'tools', 'claimed.txt')).read().split())
for p in P:
    if p['id'] in NA: continue
    if p['id'] not in have:
        NA[p['id']] = 'No check is registered for it yet.'
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='./check.sh -thorough ' + p['id'],
        technique=p['_t'], level='other', level_note=p['_n']))
m = dict(version=1, setup_cmd='./check.sh -setup', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
