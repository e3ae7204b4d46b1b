"""C15 a run that breaks down stops with an error"""
import itertools
import math

import numpy as np

from mc import cli, core, impl, ref, space
from mc.core import Violation

ID = 'C15'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive fault injection into the real integrator (every step, stage, cell, field and kind of fault up to the bound)'
RULE = ('faults: every stable step size of an alphabet (not a number, zero, negative, just below and above 1e-14) at every step; a bad '
        'value of every kind in every cell and field, in the state after every step or in the increment of every stage of every step; '
        'every integrator.  Also every history of fine step sizes that end exactly at, or rounding errors beside, output times, which must not stop.  A reference decides at which step start the run has to stop.  Non-trivial: distinct faults that are reached')
BOUNDS = {
    'quick': 'faults at steps 0-4 of runs of 5 steps with 2 and 4 outputs, and at steps 9, 10, 11, 24, 31, 50 (two integrators: eight up to 2000); faults in every cell of 17, 40 and 101 cells; 9 integrators; 1-3 cells; 7 kinds of bad values; stage faults in every stage (rk3, rk4, low_storage_rk4: every cell); histories of 4 steps (3 for most integrators) over 7 sizes x 6 output settings x 9 integrators; 5 runs of the program itself',
    'thorough': 'faults at steps 0-9 and ten later ones up to 200, 1-4 cells, every stage of every integrator in every cell',
}
CHUNK = 2
BAD = ['nan', 'inf', '-inf', 'negative pressure', 'negative density', 'zero density', 'huge velocity']


LAND = [0.125, 0.25, 0.125 * (1 + 2**-52), 0.125 * (1 - 2**-52), 0.125 * (1 + 4e-14), 0.125 * (1 - 4e-14), 0.1]


class Scripted(impl.RecSolution):
    script = None

    def max_wave_speed(self):
        if self.script is None:
            return super().max_wave_speed()
        k = min(self.n, len(self.script) - 1)
        return np.float64(self.script[k])


class Rhs:
    """Zero increments, with one bad value in the given stage of the given step"""

    def __init__(self, nstages, step=None, stage=None, cell=0, field=0, value=None, horizon=40000):
        self.calls, self.ns, self.at = 0, nstages, None if step is None else step * nstages + stage
        self.cell, self.field, self.value, self.h = cell, field, value, horizon

    def residual(self, s):
        out = np.zeros_like(s.u)
        if self.calls == self.at:
            out[0, (self.cell + 1) * s.N_F + self.field] = self.value
        self.calls += 1
        if self.calls > self.h:
            raise Violation('the run does not end')
        return out


class Lim:
    def __init__(self, sol, step=None, bad=None):
        self.sol, self.step, self.bad, self.calls = sol, step, bad, 0

    def limit(self, s):
        # the solution itself (not its stages) is limited once in every step
        if s is self.sol:
            self.calls += 1
            if self.calls == self.step:
                impl.put(s, self.bad(impl.interior(s)))


def poison(kind, e, f):
    def g(a):
        a = a.copy()
        U = a[0, e]
        if kind in ('nan', 'inf', '-inf'):
            U[f] = float(kind)
        elif kind == 'negative pressure':
            U[2] = 0.5 * U[1]**2 / U[0] - 0.3
        elif kind == 'negative density':
            U[0] = -0.2
        elif kind == 'zero density':
            U[0] = 0.0
        else:
            U[1] = 1e30
        return a
    return g


def cases(tier):
    quick = tier == 'quick'
    top = 5 if quick else 10
    for rk in impl.SCHEMES:
        for step in range(top):
            yield dict(kind='size', rk=rk, step=step, top=top)
            for n in (1, 2, 3) if quick else (1, 2, 3, 4):
                yield dict(kind='state', rk=rk, step=step, n=n, top=top)
                yield dict(kind='stage', rk=rk, step=step, n=n, top=top, all=not quick or rk in ('rk3', 'rk4', 'low_storage_rk4'))
        # late steps, and many cells
        for step in (9, 10, 11, 24, 31, 50) if quick else (10, 11, 24, 31, 32, 50, 99, 100, 101, 127, 200):
            yield dict(kind='size', rk=rk, step=step, top=step + 2)
            yield dict(kind='state', rk=rk, step=step, n=1, top=step + 2)
            yield dict(kind='stage', rk=rk, step=step, n=1, top=step + 2, all=False)
        if not quick or rk in ('rk4', 'low_storage_rk4'):
            for step in (100, 101, 128, 256, 999, 1000, 1001, 2000):
                yield dict(kind='size', rk=rk, step=step, top=step + 2)
                yield dict(kind='state', rk=rk, step=step, n=1, top=step + 2)
            for n in (17, 40, 101):
                yield dict(kind='state', rk=rk, step=n % 3, n=n, top=4)
        # step sizes that end exactly at, or a few rounding errors before or after, output times and the final time
        for first in range(len(LAND)):
            yield dict(kind='landing', rk=rk, first=first, n=(4 if quick else 5) - (rk not in ('rk3', 'rk4', 'low_storage_rk4')))
        yield dict(kind='short', rk=rk)
    for k in range(5):
        yield dict(kind='cli', which=k)


def start(n):
    s = impl.new('euler', 0, n, 'roe', cls=Scripted)
    return impl.put(s, np.array([[impl.conserved(1. + .2 * i, .1, 1.) for i in range(n)]]))


def go(s, rk, T, nout, solver, lim):
    try:
        impl.rk.integrate(s, impl.Deck(rk, T, nout, 0.5), solver, lim)
        return None
    except SystemExit as e:
        if e.code is None or e.code == 0:
            raise Violation('the run stops with exit status 0')
        return True


def run_case(c, obs):
    if c['kind'] == 'cli':
        return run_cli(c, obs)
    rk = c['rk']
    ns = len(impl.table(rk)[0])
    if c['kind'] == 'short':
        # the remaining time is shorter than the smallest step: what counts is the stable step
        for t0, T, nout, h in itertools.product((0., 1e-9), (3e-15, 5e-14), (2, 3, 5), (1e-13, 2e-14, 9.9e-15, 4e-15, 1e-16, 0., -1e-3)):
            s = start(2)
            s.t = t0
            s.script = [s.dx * 0.5 / h if h else math.inf]
            if t0 + T == t0:
                continue
            stopped = go(s, rk, t0 + T, nout, Rhs(ns), Lim(s))
            obs.ev()
            obs.state('short', rk, t0, T, nout, h)
            if bool(stopped) != (h < 1e-14):
                raise Violation('a run with a stable step of %g %s' % (h, 'stops' if stopped else 'does not stop'), end=T, outputs=nout, start=t0)
        obs.trace()
        obs.outcome('short')
        return
    if c['kind'] == 'landing':
        for seq in itertools.product(LAND, repeat=c['n'] - 1):
            seq = (LAND[c['first']],) + seq
            for t0, T, nout in ((0., .5, 2), (0., .5, 3), (0., .5, 5), (0., .375, 4), (.25, 1., 4), (0., sum(seq), 2)):
                s = start(2)
                s.t = t0
                s.script = [s.dx * 0.5 / h for h in seq]
                stopped = go(s, rk, T, nout, Rhs(ns), Lim(s))
                obs.ev()
                obs.trans(s.n)
                if stopped:
                    raise Violation('the run stops although its step sizes are fine', sizes=seq, start=t0, end=T, outputs=nout, step=s.n, time=s.t)
                if len(s.rec) != nout or abs(s.t - T) > 1e-12:
                    raise Violation('the run does not finish', sizes=seq, start=t0, end=T, outputs=len(s.rec), time=s.t)
            obs.state(rk, seq)
        obs.outcome('landing: went on')
        return
    step = c['step']
    if c['kind'] == 'size':
        for size, nout in itertools.product((float('nan'), 0.0, -0.1, 0.99e-14, 1e-16, 1.01e-14, 3e-14, 1e-9), (2, 4)):
            s = start(2)
            h = 0.1
            v = s.dx * 0.5 / h
            bad = float('nan') if size != size else float('inf') if size == 0 else s.dx * 0.5 / size
            s.script = [v] * step + [bad] + [v] * 200
            T = h * (c['top'] - 0.5)
            tiny = Rhs(ns)
            stopped = go(s, rk, T, nout, tiny, Lim(s))
            obs.ev()
            obs.state(rk, step, size, nout)
            judge(s, stopped, not size >= 1e-14, step, T, nout, [h] * step, 'stable step size %r at step %d' % (size, step))
            obs.outcome('stopped' if stopped else 'went on')
        return
    sizes = []
    for kind, e, f, nout in itertools.product(BAD, range(c['n']), range(3), (2, 4)):
        if kind not in ('nan', 'inf', '-inf') and f:
            continue
        # with an infinite density the pressure is infinity times zero, or not, depending on how the formula is written
        if kind in ('inf', '-inf') and f == 0:
            continue
        if c['kind'] == 'stage':
            if kind not in ('nan', 'inf') or (not c['all'] and (e, f) != (c['n'] - 1, 2)):
                continue
            stages = range(ns) if c['all'] or nout == 2 else (0, ns - 1)
        else:
            stages = (0,)
        for stage in stages:
            s = start(c['n'])
            T = None
            h = 0.5 * s.dx / ref.max_speed('euler', impl.interior(s), 1.4)
            T = h * (c['top'] - 0.5)
            if c['kind'] == 'state':
                g = poison(kind, e, f)
                a1 = g(impl.interior(s))
                if step == 0:
                    impl.put(s, a1)
                    lim = Lim(s)
                else:
                    lim = Lim(s, step, g)
                solver = Rhs(ns)
            else:
                lim = Lim(s)
                solver = Rhs(ns, step, stage, e, f, float(kind))
                co = impl.table(rk)[0]
                if abs(co[stage]) <= 1e-15:
                    # the increment only enters through later stages, whose increments do not depend on them here
                    continue
                a1 = impl.interior(s)
                a1[0, e, f] = float(kind)
            dt = 0.5 * s.dx / ref.max_speed('euler', a1, 1.4)
            bad = not dt >= 1e-14
            at = step if c['kind'] == 'state' else step + 1
            # a speed above the initial one makes more steps necessary
            if not bad and abs(dt - h) > 1e-12 * h:
                stopped = go(s, rk, T, nout, solver, lim)
                if stopped:
                    raise Violation('the run was stopped although its step size is fine', kind=kind, cell=e, field=f, step=at, size=dt)
                obs.outcome('went on')
                continue
            stopped = go(s, rk, T, nout, solver, lim)
            obs.ev()
            obs.state(rk, step, stage, kind, e, f, nout, c['n'], c['kind'])
            judge(s, stopped, bad, at, T, nout, [h] * at, '%s in field %d of cell %d, step %d stage %d' % (kind, f, e, step, stage))
            obs.outcome('%s: %s' % (kind, 'stopped' if stopped else 'went on'))


def judge(s, stopped, must, at, T, nout, hs, what):
    """The stable size is bad at the start of step `at` if must; all earlier steps have the sizes hs"""
    t, steps, outs = 0.0, 0, 1
    touts = list(np.linspace(0, T, nout)[1:])
    while steps < at and t < T:
        h = hs[steps] if steps < len(hs) else 0.1
        if h > touts[outs - 1] - t:
            t = touts[outs - 1]
            outs += 1
        else:
            t += h
        steps += 1
    finished = outs == nout
    if must and not finished:
        if not stopped:
            raise Violation('the run goes on: ' + what, steps=s.n)
        if s.n != steps:
            raise Violation('the run stops at step %d instead of %d: %s' % (s.n, steps, what))
        if len(s.rec) != outs:
            raise Violation('the run writes %d outputs instead of %d: %s' % (len(s.rec), outs, what))
        if abs(s.t - t) > 1e-12:
            raise Violation('time moves on: ' + what, time=s.t, expected=t)
    else:
        if stopped:
            raise Violation('the run stops although its step sizes are fine: ' + what, step=s.n)
        if len(s.rec) != nout or abs(s.t - T) > 1e-12:
            raise Violation('the run does not finish: ' + what, outputs=len(s.rec), time=s.t)


def run_cli(c, obs):
    tube = 'scktube %d 0 1 0 1 0.125 0 %s'
    decks = [
        (dict(system='euler', rk='rk4', riemann='roe', ic=tube % (10, '0.1'), nout=3, finaltime=0.05, cfl=0.5, order=0), 0, 3),
        (dict(system='euler', rk='rk4', riemann='roe', ic=tube % (10, '-0.1'), nout=3, finaltime=0.05, cfl=0.5, order=0), 1, 1),
        (dict(system='euler', rk='low_storage_rk4', riemann='rusanov', ic=tube % (10, 'nan'), nout=3, finaltime=0.05, cfl=0.5, order=1), 1, 1),
        (dict(system='euler', rk='rk3', riemann='rusanov', ic=tube % (10, '0.1'), nout=3, finaltime=0.05, cfl=1e-14, order=0), 1, 1),
        (dict(system='euler', rk='rk14', riemann='rusanov', ic=tube % (10, 'inf'), nout=3, finaltime=0.05, cfl=0.5, order=0), 1, 1),
    ]
    o, bad, nouts = decks[c['which']]
    st, files, out = cli.run(cli.deck(**o), core.scratch() + '/cli')
    obs.ev()
    obs.state('cli', c['which'])
    obs.outcome('program exit status %d' % st)
    if bool(st) != bool(bad):
        raise Violation('the program ends with exit status %d' % st, deck=o, output=out[-2000:])
    want = sorted('%s%010d.dat' % (f, k) for f in ('rho', 'rhou', 'E') for k in range(nouts))
    if sorted(files) != want:
        raise Violation('the program wrote %s instead of %s' % (sorted(files), want), deck=o)


def vacuity(total, ncases, tier):
    if not any('stopped' in k for k in total.outcomes) or not any('went on' in k for k in total.outcomes):
        return 'faults always or never stop the run'
