"""C13 all requested outputs are written, at the requested times"""
import itertools

import numpy as np

from mc import impl
from mc.core import Violation

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state search over step-size histories of the real integrator (environment answers: the stable step size)'
RULE = ('at every step the environment answers with every step size of the alphabet (fractions and multiples of the output interval, exact '
        'landings, sizes beyond the end). "tree": every history to the end of the run, without merging; "graph": histories merged when '
        'they reach the same time with the same number of outputs.  Complete runs are checked against the requested schedule')
BOUNDS = {
    'quick': 'tree: 2-5 outputs with alphabets of 3-6 sizes; graph: 2-9 outputs with 9 sizes; every number of outputs from 2 to 202 with 14 round time ranges, 2 constant sizes; 15 numbers of outputs from 17 to 500, 4 constant sizes; 3 time ranges, and 1e9 times shorter and longer ones; 10 sizes within 1e-6 to 4e-16 of the next output, times up to 3000; rk3 and low_storage_rk4, all 9 integrators and one unknown name with 2 and 3 outputs',
    'thorough': 'tree: 2-6 outputs with up to 7 sizes; graph: 2-16 outputs with 12 sizes; numbers of outputs up to 1029; all integrators',
}
ASSUMPTIONS = ['one output (n = 1) is outside the property', 'the merged search assumes that the schedule depends on the time and the outputs written only; the tree search does not']
CHUNK = 4
EPS = 1e-12


class NeedMore(Exception):
    pass


class Scripted(impl.RecSolution):
    script = ()

    def max_wave_speed(self):
        self.log.append((self.n, self.t))
        if self.n >= len(self.script):
            raise NeedMore()
        return self.dx / self.script[self.n]


class Ones:
    """du/dt = 1, so the state tells how much time was integrated"""

    def residual(self, s):
        return np.ones_like(s.u)


class NoLimit:
    def limit(self, s):
        pass


_S = {}


def execute(rk, t0, T, nout, script):
    """Returns (finished, solution)"""
    if 's' not in _S:
        s = impl.new('advection', 0, 1, '', '', (), ('zerograd', 'zerograd'), cls=Scripted)
        s.dx = 1.0
        _S['s'] = s
    s = _S['s']
    s.u = np.zeros((1, 3))
    s.n, s.t = 0, t0
    s.script = script
    s.rec.clear()
    s.log = impl.Rec()
    try:
        impl.rk.integrate(s, impl.Deck(rk, T, nout, 1.0), Ones(), NoLimit())
        return True, s
    except NeedMore:
        return False, s
    except StopIteration as e:
        raise Violation('the run stopped: no output is left before the end of the run', time=s.t, script=script[:9])
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e, script=script)


def check(s, t0, T, nout, script, done):
    tol = EPS * (abs(T) + abs(t0))
    times = np.linspace(t0, T, nout)
    if len(s.rec) > nout:
        raise Violation('more outputs than requested', outputs=[(r[0], r[1]) for r in s.rec], script=script)
    for k, r in enumerate(s.rec):
        if r[0] != k:
            raise Violation('outputs are not numbered in order', numbers=[r[0] for r in s.rec], script=script)
        if not abs(r[1] - times[k]) <= tol:
            raise Violation('output %d is at time %r instead of %r' % (k, r[1], times[k]), script=script)
        if not abs(r[3][0, 1] - (r[1] - t0)) <= tol:
            raise Violation('output %d does not hold the solution at its time' % k, time=r[1], integrated=r[3].tolist(), script=script)
    log = list(s.log) + ([(s.n, s.t)] if done else [])
    for (n1, a), (n2, b) in zip(log, log[1:]):
        if b < a - tol:
            raise Violation('time runs backwards', at=a, then=b, script=script)
        if n2 == n1 + 1 and b - a > script[n1] * (1 + 1e-12) + tol:
            raise Violation('a step is longer than the stable one', size=b - a, stable=script[n1], script=script)
    if log and log[-1][1] > T + tol:
        raise Violation('the run goes past the final time', time=log[-1][1], script=script)
    # an output that is due must have been written before the time moves on
    if not done and len(s.rec) < nout and s.t > times[len(s.rec)] + tol:
        raise Violation('output %d was not written when its time passed' % len(s.rec), time=s.t, script=script)
    if done:
        if len(s.rec) != nout:
            raise Violation('%d outputs instead of %d' % (len(s.rec), nout), script=script)
        if not abs(s.t - T) <= tol or s.n != s.rec[-1][2] or s.t != s.rec[-1][1]:
            raise Violation('the run does not end at the final time right after the last output', t=s.t, n=s.n, script=script)


def explore(c, obs, hs, merge, prefix):
    rk, nout, t0, T = c['rk'], c['nout'], c['t0'], c['T']
    horizon = (T - t0) / min(hs) + 2 * nout + 4
    seen = set()
    stack = [prefix]
    while stack:
        script = stack.pop()
        done, s = execute(rk, t0, T, nout, script)
        obs.trans()
        check(s, t0, T, nout, script, done)
        obs.state(rk, nout, t0, T, s.t, len(s.rec), done, None if merge else tuple(script))
        if done:
            obs.trace()
            obs.outcome('%d outputs, %d steps' % (nout, s.n))
            continue
        if s.n > horizon:
            raise Violation('the run does not finish', script=script, time=s.t)
        if s.n < len(script):
            raise AssertionError('a prefix was not replayed')
        if merge:
            k = (s.t, len(s.rec))
            if k in seen:
                continue
            seen.add(k)
        stack.extend(script + [h] for h in reversed(hs))


def cases(tier):
    quick = tier == 'quick'
    # (t0, output interval): dyadic (exact landings), not representable, late start
    ranges = ((0.0, 0.25), (0.0, 0.1), (0.7, 1.0 / 3))
    few = ['rk3', 'low_storage_rk4']
    trees = {2: [3., 1., .5, .25, .7, .4], 3: [100., 2., 1., .5, .7], 4: [2.5, 1., .5, .7], 5: [2.5, 1., .7]}
    if not quick:
        trees = {2: [3., 1., .5, .25, .7, .4, .3], 3: [100., 2., 1., .5, .7, .4], 4: [100., 2.5, 1., .5, .7], 5: [3.5, 1., .5, .7], 6: [2.5, 1., .7]}
    graph = [1000., 4., 2., 1.5, 1., .75, .5, .3, .25]
    if not quick:
        graph += [3., .125, .6]
    for nout in range(2, 10 if quick else 17):
        for rk in (few if quick else impl.SCHEMES) if nout > 3 else impl.SCHEMES + ['other']:
            for t0, step in ranges:
                base = dict(rk=rk, nout=nout, t0=t0, T=t0 + step * (nout - 1))
                if nout in trees and (rk in few or nout == 2):
                    for h in trees[nout]:
                        yield dict(base, mode='tree', first=h, hs=trees[nout])
                for h in graph:
                    yield dict(base, mode='graph', first=h, hs=graph)
                if nout in (2, 3, 5, 9):
                    # very short and very long runs
                    for tiny in (1e-9, 1e9):
                        for h in graph[:5]:
                            yield dict(rk=rk, nout=nout, t0=0., T=tiny * step * (nout - 1), mode='graph', first=h, hs=graph)
                if nout in (2, 3, 4) and rk in few:
                    # sizes that almost reach the next output, or just pass it
                    near = [1 - 1e-6, 1 + 1e-6, 1 - 1e-9, 1 + 1e-9, 1 - 1e-12, 1 + 1e-12, 1 - 4e-16, 1 + 4e-16, 1., .5]
                    for t1 in (t0, 60. + t0, -3.3, 1e4 / 3):
                        for h in near:
                            yield dict(rk=rk, nout=nout, t0=t1, T=t1 + step * (nout - 1), mode='graph', first=h, hs=near)
                # the default deck: outputs that are far apart compared with the step
                yield dict(base, mode='many')
    for nout in (17, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 200, 256, 257) + ((500,) if quick else (500, 512, 1000, 1001, 1025)):
        for rk in few if quick else impl.SCHEMES:
            for t0, step in ranges + ((0.0, 1e-4), (0.0, 7.3), (0.0, 3e-10), (0.0, 1.7e9)):
                yield dict(rk=rk, nout=nout, t0=t0, T=t0 + step * (nout - 1), mode='many', sizes=[.21, 1., 1.7, 30.])
    # round final times and every number of outputs: the times of the outputs are rounded in many ways
    for nout in range(2, 203 if quick else 1030):
        for T in (1., .2, 2., .15, .035, 1.8, .7, 3., 10., 100., 1e-3):
            yield dict(rk=few[nout % 2], nout=nout, t0=0., T=T, mode='many', sizes=[1.7, 40.])
        for t0, T in ((.1, .3), (.3, 1.), (1., 1.6)):
            yield dict(rk=few[nout % 2], nout=nout, t0=t0, T=T, mode='many', sizes=[1.7])


def run_case(c, obs):
    d = (c['T'] - c['t0']) / (c['nout'] - 1)
    if c['mode'] in ('tree', 'graph'):
        explore(c, obs, [h * d for h in c['hs']], c['mode'] == 'graph', [c['first'] * d])
    else:
        for h in c.get('sizes', (.01, .0625, 1. / 7, .2)):
            n = int(2 * c['nout'] / h) + 4 * c['nout']
            done, s = execute(c['rk'], c['t0'], c['T'], c['nout'], [h * d] * n)
            check(s, c['t0'], c['T'], c['nout'], [h * d] * n, done)
            obs.trace()
            obs.trans(s.n)
            if not done:
                raise Violation('the run does not finish', size=h * d, time=s.t)
