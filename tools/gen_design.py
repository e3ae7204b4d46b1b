#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the literals of the checks, the notes below and tools/design_tail.md"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(HERE + '/tools/design_notes.json'))
props = {}
for l in open(HERE + '/properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
out = [open(HERE + '/tools/design_head.md').read()]
have = set()
for f in sorted(glob.glob(HERE + '/checks/c[0-9][0-9].py')):
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    pid = v['ID']
    have.add(pid)
    n = NOTES[pid]
    out.append('### %s %s\n' % (pid, props[pid]['title']))
    out.append('- *Enumerated*: %s.\n- *Bounds (quick)*: %s.' % (v['RULE'].rstrip('.'), v['BOUNDS']['quick'].rstrip('.')))
    out.append('- *Bounds (thorough)*: %s.' % v['BOUNDS']['thorough'].rstrip('.'))
    out.append('- *Oracle*: %s' % n['oracle'])
    out.append('- *Why the tests cannot*: %s' % n['why'])
    if v.get('ASSUMPTIONS'):
        out.append('- *Limits*: %s.' % '; '.join(v['ASSUMPTIONS']))
    out.append('- *Cost*: about %s s (quick, 8 cores).\n' % n['s'])
for pid in sorted(props):
    if pid not in have:
        out.append('### %s %s\n\nNot applicable: %s\n' % (pid, props[pid]['title'], NOTES[pid]['na']))
out.append(open(HERE + '/tools/design_tail.md').read())
if os.path.exists(HERE + '/tools/detection.json'):
    det = json.load(open(HERE + '/tools/detection.json'))
    out.append('\n## Planted bugs and the checks that catch them\n\nEach is in `seeded/<name>/` with its demonstration; "own" is the check of the '
               'property it was written against.\nThe last column lists other quick checks that also report it, where that was run.\n')
    out.append('| planted bug | own check | also caught by | needs |\n|---|---|---|---|')
    for name in sorted(det):
        meta = json.load(open(HERE + '/seeded/%s/meta.json' % name)) if os.path.exists(HERE + '/seeded/%s/meta.json' % name) else None
        if meta is None:
            continue
        own = meta['property']
        d = det[name]
        out.append('| %s | %s: %s | %s | %s |' % (name, own, d.get(own, '?'), ', '.join(k for k in sorted(d) if k != own and d[k] == 'caught') or '-',
                                             meta['needs'].replace('|', '/').replace('\n', ' ')))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
