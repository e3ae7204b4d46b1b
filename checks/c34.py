"""C34 the convergence study runs every resolution once and draws its errors"""
import contextlib
import datetime
import io
import itertools
import json
import os
import runpy
import shutil
import subprocess
import sys

import numpy as np

from mc import core, impl
from mc.core import Violation

ID = 'C34'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of earlier directory contents and failing runs under the real study program, and of result trees under the real plot program'
RULE = ('every combination of left-over directory contents and of the run that fails: the real program against a recorder in place of the solver, then once with '
        'the solver itself; every set of resolutions in a result tree written by the real code: points of the figures against an independent evaluation')
BOUNDS = {
    'quick': 'own directory absent, empty or with 3 kinds of left-overs x other orders or not x each of 5 runs or none failing; 10 names of the directory of the program; sets of 2-5 of 8 resolutions and 6-15 of up to 1000 cells; one complete real study',
    'thorough': 'additionally pairs of failing runs and all sets of up to 8 resolutions',
}
ASSUMPTIONS = ['the study is the one that is in the program: order 4 with 4 to 64 cells', 'pictures are not rendered (no LaTeX here)']
CHUNK = 2
RES = [4, 8, 16, 32, 64]
GRID = [4, 8, 16, 32, 64, 100, 128, 256]
LEFT = ['none', 'empty', 'stale', 'extra', 'file']


def cases(tier):
    quick = tier == 'quick'
    fails = [[]] + [[r] for r in RES] + ([] if quick else [list(t) for t in itertools.combinations(RES, 2)])
    yield dict(kind='real')
    for left, other, fail in itertools.product(LEFT, (False, True), fails):
        yield dict(kind='study', left=left, other=other, fail=fail)
    # names that mean something else to a shell
    for place in ('my codes', 'a  b', "it's", 'x;y & z', '$HOME', '*', '(1)', '"q"', '#1', 'a\\b'):
        yield dict(kind='study', left='none', other=False, fail=[], place=place)
    for k in range(2, 6 if quick else 9):
        for i, s in enumerate(itertools.combinations(GRID, k)):
            if quick and k > 3 and i % 4:
                continue
            yield dict(kind='plot', sets=[list(s)] + [[4 * 2**j for j in range(2 + (i + o) % 4)] for o in range(3)], lead=i % 4)
    # many resolutions
    many = [4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 100, 128, 200, 256, 1000]
    for k in range(6, len(many) + 1):
        for lead in range(4 if not quick else 1):
            yield dict(kind='plot', sets=[many[:k], many[-k:], many[::2], [4, 8]], lead=(k + lead) % 4)


STUB = '''#!%s
import json, os, sys, time
def note(kind, **kw):
    with open(%r, 'a') as f:
        f.write(json.dumps(dict(kind=kind, cwd=os.getcwd(), **kw)) + '\\n')
args = sys.argv[1:]
d = args[args.index('-d') + 1] if '-d' in args else 'deck.inp'
note('start', argv=args, deck=os.path.abspath(d), files=sorted(os.listdir('.')), text=open(d).read())
time.sleep(.03)
print('first line')
sys.stderr.write('noise\\n' * 100)
print('Elapsed time 0:00:01.5 (or 1.500000 seconds)')
sys.stdout.flush()
note('end')
res = os.path.basename(os.getcwd())
sys.exit(3 if res in %r else 0)
'''


def tree(d, stub=None, git=False):
    """A copy of the programs, with a recorder in place of the solver if wanted"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for sub in ('dg1d', 'advection_convergence'):
        os.mkdir(os.path.join(d, sub))
        for f in os.listdir(os.path.join(core.REPO, sub)):
            if f.endswith('.py'):
                shutil.copy(os.path.join(core.REPO, sub, f), os.path.join(d, sub, f))
    if stub is not None:
        m = os.path.join(d, 'dg1d', 'main.py')
        with open(m, 'w') as f:
            f.write(stub)
        os.chmod(m, 0o755)
    os.mkdir(d + '/bin')
    with open(d + '/bin/git', 'w') as f:
        f.write('#!/bin/sh\necho scratch\n')
    os.chmod(d + '/bin/git', 0o755)
    for name in ('python', 'python3'):
        os.symlink(sys.executable, d + '/bin/' + name)
    return os.path.join(d, 'advection_convergence')


def start(d, timeout=300):
    env = dict(os.environ, PATH=d + '/bin:' + os.path.dirname(sys.executable) + ':' + os.environ.get('PATH', ''), OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    # a symbolic link to the interpreter of a virtual environment would lose its packages
    for name in ('python', 'python3'):
        p = d + '/bin/' + name
        if os.path.islink(p):
            os.unlink(p)
            with open(p, 'w') as f:
                f.write('#!/bin/sh\nexec %s "$@"\n' % sys.executable)
            os.chmod(p, 0o755)
    try:
        return subprocess.run([sys.executable, 'run.py'], cwd=d + '/advection_convergence', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              timeout=timeout, universal_newlines=True)
    except subprocess.TimeoutExpired:
        raise Violation('the study does not end')


def read(path):
    if not os.path.isfile(path):
        raise Violation('no file %s' % os.path.relpath(path, core.scratch()))
    with open(path) as f:
        return f.read()


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d) + '/'] = b''
    return out


def put(d, name, text='old\n'):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)


def check_deck(path, order, res):
    k = impl.deckmod.Deck()
    with contextlib.redirect_stdout(io.StringIO()):
        k.parser(path)
    want = dict(system='advection', ic='sinewave %d' % res, order=order, nout=11, finaltime=8., cfl=.5, rk='rk12', enhance='')
    for name, v in want.items():
        if getattr(k, name) != v:
            raise Violation('the input for order %d and %d cells asks for %s %r instead of %r' % (order, res, name, getattr(k, name), v))


def study(c, obs, d):
    log = d + '.log'
    if os.path.exists(log):
        os.remove(log)
    a = tree(d, STUB % (sys.executable, log, [str(r) for r in c['fail']]))
    if c['left'] == 'empty':
        os.mkdir(a + '/4')
    elif c['left'] == 'stale':
        for r in RES[1:4]:
            for f in ('u0000000000.dat', 'u0000000010.dat', 'u0000000011.dat', 'logfile', 'deck.inp'):
                put(a, '4/%d/%s' % (r, f))
    elif c['left'] == 'extra':
        for r in (4, 64, 128, 1024):
            put(a, '4/%d/u0000000010.dat' % r)
            put(a, '4/%d/deeper/u0000000010.dat' % r)
    elif c['left'] == 'file':
        put(a, '4/32', 'a file\n')
        put(a, '4/note')
    if c['other']:
        for o in (1, 3, 40):
            for r in (4, 8):
                put(a, '%d/%d/u0000000010.dat' % (o, r))
        put(a, 'convergence.pdf')
    before = {k: v for k, v in snapshot(a).items() if not k.startswith('4/')}
    r = start(d, 120)
    if r.returncode:
        raise Violation('the study stops with status %d' % r.returncode, case=c, output=r.stdout[-600:])
    ev = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
    runs = [e for e in ev if e['kind'] == 'start']
    obs.trans(len(ev))
    obs.ev(len(runs))
    got = [os.path.relpath(os.path.realpath(e['cwd']), os.path.realpath(a)) for e in runs]
    if sorted(got) != sorted('4/%d' % x for x in RES):
        raise Violation('the runs are %s' % got, case=c, output=r.stdout[-400:])
    if [e['kind'] for e in ev] != ['start', 'end'] * len(runs) or any(ev[2 * i]['cwd'] != ev[2 * i + 1]['cwd'] for i in range(len(runs))):
        raise Violation('a run starts before the one before it has ended', case=c)
    for e in runs:
        if [f for f in e['files'] if f not in ('deck.inp', 'logfile')]:
            raise Violation('a run starts in a directory with %s' % e['files'], case=c)
        if os.path.realpath(os.path.dirname(e['deck'])) != os.path.realpath(e['cwd']):
            raise Violation('a run reads the input of another one: %s' % e['deck'], case=c)
        check_deck(e['deck'], 4, int(os.path.basename(e['cwd'])))
        t = read(os.path.join(e['cwd'], 'logfile'))
        if 'first line\n' not in t or '1.500000 seconds' not in t:
            raise Violation('the logfile does not have what the run printed', case=c, logfile=t)
    after = snapshot(a)
    kept = {k: v for k, v in after.items() if not k.startswith('4/') and '__pycache__' not in k}
    if kept != before:
        raise Violation('the study changes other files: %s' % sorted(k for k in set(kept) | set(before) if kept.get(k) != before.get(k)), case=c)
    extra = sorted(k for k in after if k.startswith('4/') and k != '4/' and k.split('/')[1] not in [str(x) for x in RES])
    if extra:
        raise Violation('results of an earlier study stay: %s' % extra, case=c)
    obs.state(json.dumps(c, sort_keys=True))
    obs.outcome('study %s' % c['left'])


def figures(a):
    """The real plot program: lines and markers of its two figures"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    keep, argv, cwd = plt.savefig, sys.argv, os.getcwd()
    plt.savefig = lambda *x, **k: None
    sys.argv = ['plot.py']
    os.chdir(a)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as text:
            runpy.run_path(os.path.join(core.REPO, 'advection_convergence', 'plot.py'), run_name='__main__')
    except SystemExit as e:
        raise Violation('the plot program stopped: %s' % e)
    finally:
        plt.savefig, sys.argv = keep, argv
        os.chdir(cwd)
    out = {}
    for k in plt.get_fignums():
        out[k] = [(str(l.get_marker()), np.array([np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)])) for ax in plt.figure(k).axes for l in ax.lines]
    plt.close('all')
    return out, text.getvalue()


def judge(figs, text, want, c, obs):
    """want: order -> (resolutions, errors, seconds)"""
    if sorted(figs) != [1, 2]:
        raise Violation('figures %s' % sorted(figs), case=c)

    def one(fig, marked, x, y, what):
        x, y = np.asarray(x, float), np.asarray(y, float)
        found = [l for m, l in figs[fig] if (m not in ('None', '', ' ')) == marked and l.shape == (2, len(x)) and np.allclose(l[0], x, rtol=1e-12, atol=0) and
                 np.allclose(l[1], y, rtol=1e-10, atol=0)]
        obs.ev()
        if not found:
            raise Violation('%s is not drawn' % what, case=c, expected=[x.tolist(), y.tolist()], drawn=[l.tolist() for _, l in figs[fig]])
    for o, (r, e, t) in want.items():
        one(1, True, r, e, 'the error of order %d' % o)
        one(2, True, t, e, 'the time of order %d' % o)
        th = e[0] * (np.array(r, float) / r[0])**-(2 * o + 1)
        one(1, False, r, th, 'the expected slope of order %d' % o)
    if len(figs[1]) != 2 * len(want) or len(figs[2]) != len(want):
        raise Violation('other lines are drawn', case=c)


def plot(c, obs, d):
    a = d + '/data'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(a)
    want = {}
    keep = os.getcwd()
    sets = c['sets'][:]
    sets.insert(c['lead'], sets.pop(0))
    for o, rs in zip((1, 2, 3, 4), sets):
        errs, secs = [], []
        # in an order that is not that of the numbers
        for i, r in enumerate(rs[::-1]):
            w = '%s/%d/%d' % (a, o, r)
            os.makedirs(w)
            os.chdir(w)
            s = impl.solution.Solution('sinewave %d' % r, 'advection', o, 'roe', '', [])
            u = np.zeros((o + 1, r, 1))
            j = np.arange(r)
            u[0, :, 0] = np.cos(j * 1.7 + o)
            for m in range(1, o + 1):
                u[m, :, 0] = 3. * m + j
            v = u.copy()
            v[0, :, 0] += 10.**-(i % 5) * ((j * 5 + i) % 7 - 2.3) / r
            v[1:] *= -2
            for k, x in ((0, u), (10, v), (1, 7 * v), (9, 5 * u), (11, 3 * v)):
                impl.put(s, x)
                with contextlib.redirect_stdout(io.StringIO()):
                    s.printer(k, float(k))
            t = (.5, 61.75, 3725.25, .015625, 200000.5)[(i + o) % 5] + i
            with open('logfile', 'w') as f:
                f.write('Code version:  abc\nParsing the deck file.\nIntegrating the solution in time.\nSolution printed to file u0000000000.dat at time 0.000000e+00\n')
                f.write('Elapsed time %s (or %f seconds)\n' % (str(datetime.timedelta(seconds=t)), t))
            e = .5 * (v[0, :, 0] - u[0, :, 0])
            errs.append(float(np.sqrt(np.mean(e**2))))
            secs.append(t)
        want[o] = (rs, errs[::-1], secs[::-1])
        os.chdir(keep)
    figs, text = figures(a)
    judge(figs, text, want, c, obs)
    obs.state(json.dumps(c, sort_keys=True))
    obs.outcome('plot %d' % len(c['sets'][0]))


def real(c, obs, d):
    a = tree(d)
    for f in ('main.py',):
        os.chmod(d + '/dg1d/' + f, 0o755)
    r = start(d, 800)
    if r.returncode:
        raise Violation('the study stops with status %d' % r.returncode, output=r.stdout[-600:])
    errs, secs = [], []
    for n in RES:
        w = a + '/4/%d' % n
        log = read(w + '/logfile')
        t = [l for l in log.splitlines() if 'seconds' in l]
        if len(t) != 1:
            raise Violation('the run with %d cells has not ended' % n, logfile=log[-400:])
        secs.append(float(t[0].split('(or')[1].split()[0]))
        read(w + '/u0000000010.dat')
        u = np.loadtxt(w + '/u0000000010.dat', delimiter=',')
        if u.shape != (n, 6):
            raise Violation('the result with %d cells has shape %s' % (n, u.shape))
        x = np.linspace(-1, 1, n + 1)
        av = -np.diff(np.cos(2 * np.pi * x)) / (2 * np.pi) / np.diff(x)
        u0 = np.loadtxt(w + '/u0000000000.dat', delimiter=',')
        if not np.max(np.abs(u0[:, 1] - av)) <= (1e-12 if n > 8 else 1e-3):
            raise Violation('the first result with %d cells is not the sine wave' % n, off=float(np.max(np.abs(u0[:, 1] - av))))
        errs.append(float(np.sqrt(np.mean((.5 * (u[:, 1] - u0[:, 1]))**2))))
    os.makedirs(a + '/1', exist_ok=True)
    for o in (1, 2, 3):
        shutil.rmtree(a + '/%d' % o, ignore_errors=True)
        shutil.copytree(a + '/4', a + '/%d' % o)
    figs, text = figures(a)
    judge(figs, text, {o: (RES, errs, secs) for o in (1, 2, 3, 4)}, c, obs)
    rate = -np.diff(np.log2(errs))
    obs.note_max('lowest_rate_4_to_32', -float(rate[:3].min()))
    # the wave has moved over whole periods: the errors fall like 2^9 until rounding
    if not np.all(rate[1:3] > 8.) or not errs[-1] < 1e-11:
        raise Violation('the errors of the study do not converge', errors=errs, rates=rate.tolist())
    obs.ev(len(RES))
    obs.state('real')
    obs.outcome('real')


def run_case(c, obs):
    d = os.path.join(core.scratch(), c.get('place', 'study'))
    keep = os.getcwd()
    try:
        dict(study=study, plot=plot, real=real)[c['kind']](c, obs, d)
    finally:
        os.chdir(keep)
        shutil.rmtree(d, ignore_errors=True)
