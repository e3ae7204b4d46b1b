"""C14 every step obeys the CFL condition of the current solution"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of histories of solution states presented to the real integrator, against the CFL formula'
RULE = ('scripted histories: the state at the start of every step is replaced by every word of cell states in every order of three '
        'consecutive words, and the size of every step is compared with the formula; real runs: every configuration and word, every '
        'step of the run; runs whose end cuts the steps')
BOUNDS = {
    'quick': 'Euler words of length 1-3 over 6 states (all positions of the fastest cell), histories of 3 words, orders 0-13, CFL 0.1-2, 3 cell sizes, 2 ratios of specific heats; many numbers of cells with the fastest cell at every position; one solution object run again with all pairs of words of length 1 and 2; real runs of 4 steps: orders 0-2, all integrators and fluxes, and of 45 steps; numbers of cells up to 2049',
    'thorough': 'words of length 1-4 over 6 states, orders 0-8; real runs of 8 steps, and of 150, orders 0-3; numbers of cells up to 4097',
}
CHUNK = 4
TOL = 1e-12
STATES = [(1., 0., 1.), (1., 2., .1), (.2, -1.5, 1.), (4., .5, 3.), (1., -3., .01), (.01, 0., 1.)]


class Stop(Exception):
    pass


class Env:
    """Limiter that optionally scripts the state of the solution after every step, and solver that logs what the first
    stage of every step is given (the state and time the step starts from)"""

    def __init__(self, sol, solver, inner, script, limit):
        self.sol, self.solver, self.inner, self.script, self.max = sol, solver, inner, script, limit
        self.log = []
        self.fresh = True

    def limit(self, s):
        if self.inner is not None:
            self.inner.limit(s)
        if s is self.sol:
            if self.script:
                impl.put(s, self.script[len(self.log) % len(self.script)])
            self.fresh = True

    def residual(self, s):
        if self.fresh:
            self.fresh = False
            self.log.append((len(self.log), float(s.t), impl.interior(s)))
            if len(self.log) > self.max:
                raise Stop()
        return self.solver.residual(s)


class Zero:
    def residual(self, s):
        return np.zeros_like(s.u)


def follow(sol, rk, cfl, T, nout, solver, inner, script, steps):
    env = Env(sol, solver, inner, script, steps)
    try:
        impl.rk.integrate(sol, impl.Deck(rk, T, nout, cfl), env, env)
        env.log.append((len(env.log), float(sol.t), impl.interior(sol)))
    except Stop:
        pass
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    return env.log


def compare(log, sol, cfl, t0, T, nout, obs, c):
    g = impl.constants.gamma
    p = sol.basis.p
    outs = list(np.linspace(t0, T, nout)[1:])
    for (n1, t1, a1), (n2, t2, _) in zip(log, log[1:]):
        want = cfl * sol.dx / ((2 * p + 1) * ref.max_speed(sol.keywords['system'], a1, g))
        nxt = [t for t in outs if t > t1 + 1e-12]
        cut = min([t - t1 for t in nxt[:1]] + [want])
        obs.trans()
        got = t2 - t1
        ok = abs(got - cut) <= TOL * (want + abs(t2))
        # landing exactly on an output time may or may not take an empty step
        if not ok and not (got == 0 and any(abs(t - t1) < 1e-12 for t in outs)):
            raise Violation('the step is not the CFL step', step=n1, time=t1, size=got, cfl_step=want, cut_to=cut, state=a1.tolist())
        obs.outcome('cut' if cut < want else 'full')


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 5 if quick else 9):
        for cfl, half, g in itertools.product((.1, .5, 1., 2.), (1, 4, 5), (1.4, 3.)):
            yield dict(kind='advection', p=p, cfl=cfl, half=half, gamma=g)
            for n in (1, 2, 3) if quick else (1, 2, 3, 4):
                if n >= 3 and (half != 1 or cfl not in (.5, 2.) or p > 3):
                    continue
                yield dict(kind='script', p=p, cfl=cfl, half=half, gamma=g, n=n)
    for first in range(len(STATES)):
        for rk in ('rk3', 'low_storage_rk4') if quick else impl.SCHEMES:
            for n in (1, 2):
                yield dict(kind='again', first=first, rk=rk, n=n)
    for p in range(5 if quick else 9, 14):
        for n in (1, 2):
            yield dict(kind='script', p=p, cfl=.5, half=1, gamma=1.4, n=n)
            yield dict(kind='script', p=p, cfl=1., half=4, gamma=3., n=n)
        yield dict(kind='advection', p=p, cfl=.5, half=1, gamma=1.4)
    for c in space.high(fluxes=['roe'], schemes=['rk4', 'low_storage_rk4', 'rk3']):
        yield dict(c, kind='real', word=[0, 1, 2], steps=4)
    for n in space.SIZES + (space.SIZES_HUGE[:2] + [1024, 2049] if quick else space.SIZES_HUGE + space.SIZES_VAST):
        for p in (0, 1) if quick else (0, 1, 2, 3):
            yield dict(kind='positions', p=p, cells=n, cfl=.5, gamma=1.4, half=1)
            yield dict(kind='positions', p=p, cells=n, cfl=.9, gamma=1.1, half=4)
    for c in space.configs(range(0, 3) if quick else range(0, 4), impl.SCHEMES, limiters=('', 'all', 'some'), fluxes=['roe', 'godunov']):
        if c['rk'] in ('rk3', 'rk4', 'low_storage_rk4') or c['p'] == 1 and not c['enh']:
            yield dict(c, kind='real', size=6, steps=45 if quick else 150)
            yield dict(c, kind='real', size=37, steps=4)
        if c['rk'] in ('rk3', 'low_storage_rk4') and c['p'] == 0 and not c['enh'] and c['lim'] != '':
            yield dict(c, kind='real', size=4, steps=2050)
    for c in space.configs(range(0, 3) if quick else range(0, 4), impl.SCHEMES, limiters=('', 'all')):
        for n in (1, 2, 3):
            for w in itertools.product(range(3), repeat=n):
                if n == 3 and (c['rk'] != 'rk4' or c['enh']):
                    continue
                yield dict(c, kind='real', word=list(w), steps=4 if quick else 8)


def positions(c, obs):
    """The fastest state at every position of the grid, then a faster one at every position, in one long history"""
    n, p, g = c['cells'], c['p'], c['gamma']
    s = impl.new('euler', p, n, 'roe', '', (), ('periodic', 'zerograd'), g, c['half'])
    script = []
    base = np.zeros((p + 1, n, 3))
    for e in range(n):
        base[0, e] = impl.conserved(1. + .1 * np.sin(e), .1 * np.cos(3. * e), 1., gamma=g)
    base[1:] = 0.05
    for fast, order in (((1., -3., 1.), 1), ((.01, .0, 1.), -1), ((1., 0., 7.), 1), ((3., 2., 1.), -1)):
        for e in range(n)[::order] if n < 130 else [0, 1, 2, 3, n // 3, n // 2, n - 4, n - 3, n - 2, n - 1]:
            a = base.copy()
            a[0, e] = impl.conserved(*fast, gamma=g)
            script.append(a)
        script.append(base)
    s.n, s.t = 0, 0.
    impl.put(s, script[-1])
    log = follow(s, 'rk3', c['cfl'], 1e6, 2, Zero(), None, script, len(script))
    compare(log, s, c['cfl'], 0., 1e6, 2, obs, c)
    obs.trace()
    obs.state('positions', p, n, g)


def again(c, obs):
    """The same solution object run again and again with other data, from the same time and step number"""
    n, cfl = c['n'], .5
    words = [(c['first'],)] if n == 1 else list(itertools.product([c['first']], range(len(STATES))))
    others = list(itertools.product(range(len(STATES)), repeat=n))
    s = impl.new('euler', 1, n, 'roe', '', (), ('periodic', 'periodic'), 1.4, 1)

    def data(w):
        a = np.zeros((2, n, 3))
        for e, i in enumerate(w):
            a[0, e] = impl.conserved(*STATES[i])
        return a
    for w, v in itertools.product(words, others):
        for steps in (0, 1):
            for d in (w, v, w):
                a = data(d)
                impl.put(s, a)
                s.n, s.t = 0, 0.
                T = (steps + .5) * cfl * s.dx / (3 * ref.max_speed('euler', a, 1.4))
                log = follow(s, c['rk'], cfl, T, 2, Zero(), None, None, 50)
                compare(log, s, cfl, 0., T, 2, obs, c)
                obs.trace()
                if log[-1][1] != T:
                    raise Violation('the run does not end', time=log[-1][1], final=T)
        obs.state(c['rk'], w, v)


def run_case(c, obs):
    if c['kind'] == 'again':
        return again(c, obs)
    if c['kind'] == 'real':
        for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd')):
            s = space.build(dict(c, bc=bc))
            cfl = 0.4 * impl.FRAC.get(c['rk'], 0.75)
            dt = cfl * s.dx / ((2 * c['p'] + 1) * impl.speed(s))
            if c['rk'] != 'rk4' and bc[0] == 'zerograd' and len(c.get('word', [0, 0])) > 1:
                continue
            for T, nout in ((1e3, 2), (3.3 * dt, 3)):
                s = space.build(dict(c, bc=bc))
                log = follow(s, c['rk'], cfl, T, nout, impl.dg.DG(s), impl.limiting.Limiter(c['lim'], s), None, c['steps'])
                compare(log, s, cfl, 0., T, nout, obs, c)
                obs.trace()
                for x in log:
                    obs.state(c['flux'], c['lim'], x[2])
        return
    if c['kind'] == 'positions':
        return positions(c, obs)
    rks = ('rk4', 'low_storage_rk4')
    if c['kind'] == 'advection':
        for n in (1, 2, 5, 50):
            s = impl.new('advection', c['p'], n, '', '', (), ('periodic', 'periodic'), c['gamma'], c['half'])
            script = [np.full((c['p'] + 1, n, 1), v) for v in (0., 7., -50.)]
            for rk in rks:
                for T, nout in ((1e3, 2), (.37, 4)):
                    s.n, s.t = 0, 0.
                    impl.put(s, script[0])
                    log = follow(s, rk, c['cfl'], T, nout, Zero(), None, script, 6)
                    compare(log, s, c['cfl'], 0., T, nout, obs, c)
                    obs.trace()
            obs.state(c['p'], c['cfl'], c['half'], n)
        return
    n, p = c['n'], c['p']
    words = list(itertools.product(range(len(STATES)), repeat=n))
    data = []
    for w in words:
        a = np.zeros((p + 1, n, 3))
        for e, i in enumerate(w):
            a[0, e] = impl.conserved(*STATES[i], gamma=c['gamma'])
            a[1:, e] = 0.3 * (-1)**e / (1 + i)  # higher modes must not matter
        data.append(a)
    for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd')):
        s = impl.new('euler', p, n, 'roe', '', (), bc, c['gamma'], c['half'])
        # every pair of consecutive words at distance 1, 7 and 31 in the list
        for d in (1, 7, 31):
            for rk in rks:
                s.n, s.t = 0, 0.
                script = [data[(d * (k + 1)) % len(data)] for k in range(len(data))]
                impl.put(s, data[0])
                log = follow(s, rk, c['cfl'], 1e6, 2, Zero(), None, script, len(data))
                compare(log, s, c['cfl'], 0., 1e6, 2, obs, c)
                obs.trace()
        s.n, s.t = 0, 0.
        impl.put(s, data[0])
        T = 5 * s.dx
        log = follow(s, 'rk3', c['cfl'], T, 7, Zero(), None, data, 200)
        compare(log, s, c['cfl'], 0., T, 7, obs, c)
    for w in words:
        obs.state(p, c['cfl'], c['half'], c['gamma'], w)


def vacuity(total, ncases, tier):
    if not total.outcomes.get('cut') or not total.outcomes.get('full'):
        return 'no step was cut, or none was full'
