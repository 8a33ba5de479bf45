#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CHK = {}
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


def check(id, technique, level, note):
    CHK[id] = {'property': id, 'quick_cmd': 'python3 run.py %s quick' % id, 'thorough_cmd': 'python3 run.py %s thorough' % id,
               'technique': technique, 'level': level, 'level_note': note}


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


AI = 'abstract interpretation of the LLVM IR in product with the grammar automaton'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        o.write(json.dumps(p) + '\n')
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
for i in ids:
    assert (i in CHK) != any(n['property'] == i for n in NA), i
m = {'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo unchanged'},
     'checks': [CHK[i] for i in ids if i in CHK], 'not_applicable': NA}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as o:
    json.dump(m, o, indent=1)
    o.write('\n')
print(len(P), 'properties', len(CHK), 'claimed')
