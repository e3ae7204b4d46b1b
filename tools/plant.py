#!/usr/bin/env python3
"""Build and confirm planted bugs (development tool; no check uses it).

    plant.py build SPEC.py ...   write seeded/<id>/ from a spec (PROPERTY, EDITS, NEEDS, BREAKS, DEMO)
    plant.py confirm ID ...      tests pass with the patch, demo exits 0 without and nonzero with it
    plant.py detect ID ... [--checks C01,C02 | --all] [--tier quick]
                                 which checks report it (runs them with DG1D_REPO=scratch copy)
All work happens in scratch copies of /repo under /tmp, removed afterwards.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, timeout=timeout)


class Scratch:
    def __init__(self, patch=None):
        self.patch = patch

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
        self.repo = os.path.join(self.d, 'repo')
        sh(['cp', '-a', '/repo', self.repo])
        if self.patch:
            r = sh(['git', 'apply', self.patch], cwd=self.repo)
            if r.returncode:
                raise RuntimeError('patch does not apply: ' + r.stdout)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def build(spec):
    ns = runpy.run_path(spec)
    bid = ns.get('ID') or os.path.basename(spec)[:-3]
    d = os.path.join(SEEDED, bid)
    os.makedirs(d, exist_ok=True)
    with Scratch() as s:
        for f, old, new in ns['EDITS']:
            p = os.path.join(s.repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit('%s: %d matches of %r in %s' % (bid, t.count(old), old, f))
            open(p, 'w').write(t.replace(old, new))
        r = sh(['git', 'diff'], cwd=s.repo)
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(ns['DEMO'].lstrip())
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# run with cwd /repo: 0 if the property holds here, nonzero if it is broken\n'
                'export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return bid


def confirm(bid):
    d = os.path.join(SEEDED, bid)
    out = []
    with Scratch(os.path.join(d, 'patch.diff')) as s, Scratch() as clean:
        script = open('/opt/vp/test.sh').read().replace('/repo', s.repo)
        script = script.replace('-n 6', '-n 2')
        open(s.d + '/test.sh', 'w').write(script)
        r = sh(['bash', s.d + '/test.sh', s.d + '/out.json'])
        try:
            res = json.load(open(s.d + '/out.json'))
        except Exception:
            return bid, 'TESTS? ' + r.stdout[-500:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests') or list(base)
        passed = set(res.get('passed', [])) if isinstance(res, dict) else set(res)
        missing = [t for t in names if t not in passed]
        out.append('tests ok' if not missing else 'TESTS FAIL %s' % missing[:4])
        demo = tempfile.mkdtemp(prefix='plantdemo-', dir='/tmp')
        for f in os.listdir(d):
            if f not in ('patch.diff', 'meta.json'):
                shutil.copy2(os.path.join(d, f), demo)
        a = sh(['bash', demo + '/demo.sh'], cwd=clean.repo, timeout=300)
        b = sh(['bash', demo + '/demo.sh'], cwd=s.repo, timeout=300)
        out.append('demo clean %d patched %d' % (a.returncode, b.returncode))
        if a.returncode or not b.returncode:
            out.append('DEMO BAD\n--clean\n%s\n--patched\n%s' % (a.stdout[-1500:], b.stdout[-1500:]))
        else:
            out.append(b.stdout.strip().splitlines()[-1][:160] if b.stdout.strip() else '')
        shutil.rmtree(demo)
    return bid, ' | '.join(out)


def detect(bid, checks, tier):
    d = os.path.join(SEEDED, bid)
    rows = []
    with Scratch(os.path.join(d, 'patch.diff')) as s:
        ev = s.d + '/ev'
        for c in checks:
            r = sh(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(VERIF, 'run.py'), c, '--tier', tier],
                   env={'DG1D_REPO': s.repo, 'VERIF_SEED': '1', 'DG1D_MC_OUT': ev}, timeout=3000)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            rows.append((c, r.returncode, v[0] if v else (r.stdout[-300:] if r.returncode not in (0, 1) else '')))
    return bid, rows


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'build':
        for a in args:
            print(build(a))
    elif cmd == 'confirm':
        ids = args or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(3) as ex:
            for b, o in ex.map(confirm, ids):
                print(b, o, flush=True)
    elif cmd == 'detect':
        tier = 'quick'
        checks = None
        if '--tier' in args:
            i = args.index('--tier')
            tier = args[i + 1]
            del args[i:i + 2]
        if '--checks' in args:
            i = args.index('--checks')
            checks = args[i + 1].split(',')
            del args[i:i + 2]
        if '--all' in args:
            args.remove('--all')
            checks = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/checks') if re.match(r'c\d\d\.py', f))
        for b in args or sorted(os.listdir(SEEDED)):
            cs = checks or [json.load(open(os.path.join(SEEDED, b, 'meta.json')))['property']]
            b, rows = detect(b, cs, tier)
            dj = VERIF + '/tools/detection.json'
            table = json.load(open(dj)) if os.path.exists(dj) else {}
            for c, rc, v in rows:
                table.setdefault(b, {})[c] = {0: 'missed', 1: 'caught'}.get(rc, 'error')
            json.dump(table, open(dj, 'w'), indent=1, sort_keys=True)
            for c, rc, v in rows:
                print(b, c, {0: 'MISSED', 1: 'caught'}.get(rc, 'ERROR %s' % rc), v, flush=True)


main()
