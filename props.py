#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from checks import CHECKS
PROPS = []; NA = []
def prop(id, title, statement, over, qtext, why, files, mech, obs, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None), note=note))
def na(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(V + '/props_table.py').read())
if __name__ == '__main__':
    PROPS.sort(key=lambda p: p['id'])
    ids = [p['id'] for p in PROPS]; assert len(set(ids)) == len(ids)
    for p in PROPS: assert len(p['title']) <= 80, p['title']
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS: f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] not in CHECKS: assert any(n['property'] == p['id'] for n in NA), p['id']; continue
        checks.append(dict(property=p['id'], quick_cmd='python3 vs.py %s quick' % p['id'], thorough_cmd='python3 vs.py %s thorough' % p['id'],
            technique='symbolic execution of the compiled repository code (LLVM IR of the current tree) with an SMT solver (z3) deciding every branch and assertion; exhaustive over all paths within the bounds', level='model_checking', level_note=p['note']))
    for c in CHECKS: assert c in ids, c
    json.dump(dict(version=1, setup_cmd='python3 vs.py setup', checks=checks, not_applicable=NA), open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(PROPS), 'properties', len(checks), 'checks', len(NA), 'not applicable')
