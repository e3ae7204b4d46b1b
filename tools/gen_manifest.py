#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (ID, LEVEL, TECHNIQUE, NOTE are read as literals)"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
DEFAULT_TECH = {
    'model_checking': 'bounded-exhaustive exploration of the real code against a reference model',
    'exploration': 'bounded-exhaustive enumeration of inputs of the real code against an independent oracle',
    'fault_enumeration': 'exhaustive fault enumeration on the real code',
}
checks = []
for f in sorted(glob.glob(HERE + '/checks/c[0-9][0-9].py')):
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    pid = v['ID']
    note = v.get('NOTE') or ('Every case of the stated space is executed on the real code: ' + v['RULE'] + ' Quick bounds: ' +
                             v['BOUNDS']['quick'] + '.')
    if v.get('ASSUMPTIONS'):
        note += ' Limits: ' + '; '.join(v['ASSUMPTIONS']) + '.'
    checks.append(dict(property=pid, quick_cmd='./run.py %s --tier quick' % pid, thorough_cmd='./run.py %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=v.get('TECHNIQUE', DEFAULT_TECH[v['LEVEL']]),
                       level=v['LEVEL'], level_note=note))
have = {c['property'] for c in checks}
na = []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p not in have:
        na.append(dict(property=p, reason=NA.get(p, 'no check yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='All checks import dg1d from /repo at run time (nothing is built); no hooks are used in /repo.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
