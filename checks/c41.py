"""C41 a run that was killed can be continued from any of its outputs"""
import itertools
import os
import re
import shutil
import sys

import numpy as np

from mc import core, impl
from mc.core import Violation

ID = 'C41'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of crash points of real runs and of histories of continued runs, against the uninterrupted run'
RULE = ('crash: the process is ended at every evaluation of the operator, every output and every written file of it (in runs with more than 300 of these, at the first and last of those between which no file changes); the outputs announced until then must '
        'be complete and those of the uninterrupted run. continue: for every set of outputs, the run is stopped at each of them, and continued by a new '
        'solution that loads it; every later output must be that of the uninterrupted run')
BOUNDS = {
    'quick': 'all pairs of deviations in system, initial condition, order 0-3, integrator, flux, limiter, enhancement, cells, outputs from 4 base runs (single deviations also from step 998 and 123456 on); all subsets of 3-5 outputs; every crash point for single deviations',
    'thorough': 'all triples of deviations; every crash point for pairs of deviations',
}
ASSUMPTIONS = ['boundary conditions are applied to a loaded solution before it is run, as main.py does after construction', 'data written before the process ends stays in the file system']
CHUNK = 4

AXES = {
    'advection': dict(
        ic=['sinewave 6', 'ictest 5', 'sinewave 9', 'ictest 2'], order=[2, 0, 1, 3, 5], rk=['rk4', 'low_storage_rk4', 'rk3', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14'],
        lim=['', [-1.], [.35]], enhance=['', 'icb 0', 'icb 1 0'], cfl=[.37, .11], finaltime=[.23, .71], nout=[4, 5, 6]),
    'euler': dict(
        ic=['entrpyw 6', 'acsticw 5', 'scktube 6 0.1 1 0.2 1 0.6 -0.1 0.5', 'entrpyw 9', 'acsticw 2'], order=[1, 0, 2, 3],
        rk=['rk4', 'low_storage_rk4', 'rk3', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12'],
        riemann=['roe', 'rusanov', 'godunov'], lim=['', [-1., 2.], [.1, .05]], enhance=['', 'icb 0', 'icb 1 0'], cfl=[.31, .13], finaltime=[.11, .27], nout=[4, 5, 6]),
}
AXES['euler limited'] = dict(AXES['euler'], ic=['scktube 12 0.1 1 0.2 1 0.6 -0.1 0.5', 'scktube 7 -.2 1 0 1 .125 0 .1'], riemann=['rusanov', 'roe'], lim=[[.1, .05], [-1., 2.], [.02, .2], ''], order=[1, 2, 0],
                             rk=['rk3', 'rk4', 'low_storage_rk4'])
AXES['euler strong'] = dict(AXES['euler'], ic=['simplew 20', 'shuoshe 24'], order=[0, 1], riemann=['roe', 'rusanov'], lim=['', [-1., 2.]],
                            rk=['rk3', 'low_storage_rk4'], enhance=[''])


def decks(depth):
    for system in AXES:
        ax = AXES[system]
        names = list(ax)
        for d in range(depth + 1):
            for which in itertools.combinations(names, d):
                for vals in itertools.product(*[range(1, len(ax[x])) for x in which]):
                    o = {x: ax[x][0] for x in names}
                    o.update({x: ax[x][v] for x, v in zip(which, vals)})
                    if o['order'] == 0 and o['enhance'] == 'icb 1 0':
                        continue
                    if o['lim'] and o['order'] > 3:
                        continue
                    yield system, o, d


def cases(tier):
    quick = tier == 'quick'
    for system, o, d in decks(2 if quick else 3):
        yield dict(kind='continue', system=system, options=o)
        if d <= (1 if quick else 2):
            # late in a long run
            for n0, t0 in ((998, .6180339887), (123456, 141.421356)):
                yield dict(kind='continue', system=system, options=o, n0=n0, t0=t0)
        if d <= (1 if quick else 2):
            yield dict(kind='crash', system=system, options=o)


def create(c):
    o = c['options']
    system = c['system'].split()[0]
    s = impl.solution.Solution(o['ic'], system, o['order'], o.get('riemann', 'roe'), o['enhance'], list(o['lim'] or []))
    return s, impl.Deck(o['rk'], o['finaltime'] + c.get('t0', 0.), o['nout'], o['cfl'])


def go(s, deck, limited, solver=None, whole=False):
    """Runs to the end; False if a whole run breaks down (there is nothing to compare with then)"""
    try:
        impl.rk.integrate(s, deck, solver or impl.Solver(s, 60000), limited)
        return True
    except SystemExit as e:
        if not whole:
            raise Violation('the run stopped: %s' % e)
        return False


def fields(s):
    return s.keywords['fields']


def contents(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as h:
            out[f] = h.read()
    return out


def limiter(o, s):
    return impl.limiting.Limiter('adaptive_hr' if o['lim'] else '', s)


def start(c):
    s, deck = create(c)
    s.n, s.t = c.get('n0', 0), c.get('t0', 0)
    s.apply_bc()
    lim = limiter(c['options'], s)
    lim.limit(s)
    return s, deck, lim


def resume(c, k):
    """A new solution that holds output k of the current directory"""
    s, deck = create(c)
    s.loader(k)
    s.apply_bc()
    return s, deck, limiter(c['options'], s)


def fresh(name):
    d = os.path.join(core.scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    return d


def data(text):
    """Step number, time, boundary types, centers and values of a stored field"""
    lines = text.decode().splitlines()
    head = dict(x.split('=') for x in re.sub('^# *', '', lines[0]).replace(' ', '').split(','))
    rows = np.array([[float(x) for x in l.split(',')] for l in lines if l and not l.startswith('#')])
    return int(head['n']), float(head['t']), head['bc_l'], head['bc_r'], rows


def name(f, k):
    return f + '%010d.dat' % k


def judge(c, ref, got, first, fs, obs, chain):
    """The outputs 0, 1, ... of a continued run are the outputs first, first + 1, ... of the whole run"""
    o = c['options']
    count = o['nout'] - first
    for f in fs:
        for i in range(count):
            kw = dict(field=f, output=first + i, chain=chain)
            if name(f, i) not in got:
                raise Violation('a continued run does not write output %d' % (first + i), files=sorted(got), **kw)
            a, b = data(ref[name(f, first + i)]), data(got[name(f, i)])
            if a[4].shape != b[4].shape:
                raise Violation('a continued run has other cells', **kw)
            if b[0] != a[0] or b[2:4] != a[2:4]:
                raise Violation('a continued run writes step %d, %s, %s instead of %d, %s, %s' % (b[0], b[2], b[3], a[0], a[2], a[3]), **kw)
            if not abs(b[1] - a[1]) <= 1e-13 * max(1, abs(a[1])):
                raise Violation('a continued run writes an output at time %.17g instead of %.17g' % (b[1], a[1]), **kw)
            if i == 0 and len(chain) == 1 and not (np.array_equal(a[4], b[4]) and a[1] == b[1]):
                raise Violation('the first output of a continued run is not the one it was started from', **kw)
            e = impl.err(b[4], a[4], 1 + float(np.max(np.abs(a[4]))))
            obs.note_max('difference from the uninterrupted run', e)
            if not e <= 1e-9:
                raise Violation('a continued run differs from the uninterrupted one by %.3g' % e, **kw)
        if name(f, count) in got:
            raise Violation('a continued run writes more outputs than were left', files=sorted(got), chain=chain)


def run_continue(c, obs):
    o = c['options']
    d = fresh('whole')
    s, deck, lim = start(c)
    if not go(s, deck, lim, whole=True):
        obs.outcome('breaks down')
        return
    obs.ev()
    ref, fs = contents(d), fields(s)
    if len([f for f in ref if f.startswith(fs[0] + '0')]) != o['nout']:
        raise Violation('the run wrote %s' % sorted(ref))
    m = o['nout'] - 1
    # the state after stopping at the outputs of a chain is reused by all longer chains
    done = {(): ref}
    for r in range(1, m + 1):
        for chain in itertools.combinations(range(0, m), r):
            if r > 2 and chain != tuple(range(chain[0], chain[0] + r)):
                continue
            before, base = done[chain[:-1]], chain[-2] if r > 1 else 0
            d = fresh('part')
            k = chain[-1] - base
            # the outputs there are, as the earlier run left them when it was ended
            for f in fs:
                for i in range(k + 1):
                    with open(name(f, i), 'wb') as h:
                        h.write(before[name(f, i)])
            s, deck, lim = resume(c, k)
            deck.nout = o['nout'] - chain[-1]
            # continue elsewhere: the outputs of the earlier part stay
            d = fresh('next')
            go(s, deck, lim)
            obs.trans()
            done[chain] = contents(d)
            judge(c, ref, done[chain], chain[-1], fs, obs, chain)
            obs.state(c['system'], sorted(map(str, o.items())), c.get('n0'), chain)
            obs.trace()
    obs.outcome('continue ' + c['system'])


class Bomb:
    """Ends the process at the given event"""

    def __init__(self, at):
        self.at, self.seen = at, 0

    def tick(self):
        if self.seen == self.at:
            os._exit(9)
        self.seen += 1


class Watch:
    """Notes the files that there are at each event"""

    def __init__(self, d):
        self.d, self.seen = d, []

    def tick(self):
        self.seen.append(hash(tuple(sorted(contents(self.d).items()))))


class Solver:
    def __init__(self, s, bomb):
        self.dg, self.bomb = impl.dg.DG(s), bomb

    def residual(self, s):
        self.bomb.tick()
        out = self.dg.residual(s)
        self.bomb.tick()
        return out


def events(c, bomb, log):
    """The run with an event around each evaluation, output and line written; outputs are logged when they are complete"""
    s, deck, lim = start(c)
    cls = type(s)

    class Logged(cls):
        def printer(self, nout, dt):
            bomb.tick()
            super().printer(nout, dt)
            os.write(log, b'%d\n' % nout)
            bomb.tick()

    s.__class__ = Logged
    real = np.savetxt

    def torn(*a, **k):
        bomb.tick()
        real(*a, **k)
        bomb.tick()

    np.savetxt = torn
    try:
        go(s, deck, lim, Solver(s, bomb))
    finally:
        np.savetxt = real


def run_crash(c, obs):
    o = c['options']
    d = fresh('whole')
    s, deck, lim = start(c)
    if not go(s, deck, lim, whole=True):
        obs.outcome('breaks down')
        return
    ref, fs = contents(d), fields(s)
    extra = ['sensor'] if o['lim'] else []
    log = os.path.join(core.scratch(), 'announced')
    seen = set()
    # what is in the file system at each event is what is left if the process ends there: in long runs, the process
    # is ended at the first and the last of the events with the same files only
    open(log, 'w').close()
    d = fresh('killed')
    watch = Watch(d)
    fd = os.open(log, os.O_WRONLY | os.O_APPEND)
    try:
        events(c, watch, fd)
    finally:
        os.close(fd)
    w = watch.seen
    points = [i for i in range(len(w)) if len(w) <= 300 or i == 0 or i == len(w) - 1 or w[i] != w[i - 1] or w[i] != w[i + 1]] + [len(w)]
    for n in points:
        d = fresh('killed')
        open(log, 'w').close()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                events(c, Bomb(n), os.open(log, os.O_WRONLY | os.O_APPEND))
                code = 0
            finally:
                os._exit(code)
        st = os.waitpid(pid, 0)[1]
        code = os.waitstatus_to_exitcode(st)
        if code not in (0, 9):
            raise Violation('a run with an observer fails', crash=n, status=code)
        got = contents(d)
        with open(log) as h:
            announced = [int(l) for l in h]
        for k in announced:
            for f in fs + extra:
                if got.get(name(f, k)) != ref[name(f, k)]:
                    raise Violation('output %d of %s is not complete when the run is killed later' % (k, f), crash=n, files=sorted(got))
        if announced != list(range(len(announced))):
            raise Violation('outputs are written in the order %s' % announced)
        late = [x for x in got if x not in {name(f, k) for k in range(len(announced) + 1) for f in fs + extra}]
        if late:
            raise Violation('files %s exist before their output' % late, crash=n)
        obs.trans()
        obs.state(c['system'], sorted(map(str, o.items())), n)
        if announced and code == 9:
            # continue with the last complete output, next to what is left of the one after it
            k = announced[-1]
            key = (k, tuple(sorted((x, len(v)) for x, v in got.items())))
            if key not in seen:
                seen.add(key)
                s, deck, lim = resume(c, k)
                left = o['nout'] - k
                if left >= 2:
                    deck.nout = left
                    d = fresh('next')
                    go(s, deck, lim)
                    judge(c, ref, contents(d), k, fs, obs, (k,))
                    obs.trace()
        if (code == 0) != (n == len(w)):
            raise Violation('a run again has another number of steps or outputs', events=len(w), crash=n)
    obs.note_max('crash points of a run', len(w))
    obs.outcome('crash ' + c['system'])


def run_case(c, obs):
    keep = os.getcwd()
    try:
        dict(zip(('continue', 'crash'), (run_continue, run_crash)))[c['kind']](c, obs)
    finally:
        os.chdir(keep)
