#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ('The repository\'s test runs the inspectors on a handful of random lower-triangular matrices of one size and compares one triangular solve; '
         'the demos do the same on one small matrix. ')
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level='model_checking', tech='', note='', state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level=level, tech=tech, note=note, state=state or []))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
NA = globals().get('NA', [])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
na = {x['property'] for x in NA}
m = dict(version=1, setup_cmd='python3 -m compileall -q check.py vlib', checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
    technique=p['tech'], level=p['level'], level_note=p['note'] or NOTE) for p in P if p['id'] not in na],
    not_applicable=NA, notes='No hooks in /repo: the public functions are the linearization points, and every driver is compiled from /repo\'s working tree by each check.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
