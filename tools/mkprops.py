#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        p['anchors']['observe_at'] = observe
    P.append((p, technique, note, na))

CBMC = 'CBMC code contracts / contract harnesses on the real C functions, SAT-discharged'
exec(open(os.path.join(H, 'tools', 'props_list.py')).read())

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p, *_ in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for p, t, n, na in P:
    if na:
        NA.append({'property': p['id'], 'reason': na})
        continue
    c = {'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
         'technique': t, 'level': 'proof', 'level_note': n}
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': NA,
     'notes': 'No hooks are needed in /repo: the contracts are kept in /verif/c and /verif/py and are checked against the sources and modules of /repo as they are on each run.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(NA), 'not applicable')
