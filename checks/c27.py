"""C27 lowest-order runs create no overshoots and keep density and pressure positive"""
import itertools

import numpy as np

from mc import impl, ref
from mc.core import Violation

ID = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of words of cell states through steps of the real code; the one-step map from unit data decides all advection data'
RULE = ('advection: the one-step map at order 0 from unit data in every cell (nonnegative with row sums 1, so no data can overshoot or gain total '
        'variation), and every word of values run for several steps; Euler: every word of cell states x boundary pair, one forward Euler step at '
        'CFL number 1 (and below) with the real operator and Rusanov flux')
BOUNDS = {
    'quick': 'advection: 1-10 cells (and 16 to 129 with 2 CFL numbers), 8 CFL numbers, 3 integrators, 1 step and runs over up to 3.37 CFL steps with the step sizes of the code; words of length 1-6 over 4 values, 4 steps; Euler: words of length 1-3 over 45 states, 4 over 9, 3 ratios of specific heats (5 for length 2)',
    'thorough': 'advection: 1-24 cells, 20 CFL numbers; words up to length 8; Euler: words of length 3 over 84 states, 4-5 over 10',
}
CHUNK = 4
TOL = 1e-13
VALS = [0., 1., -2., 1e-3]


def states(k):
    if k <= 10:
        return [(1, 0, 1), (1e-4, 0, 1e-4), (10, 5, 1e-3), (10, -5, 1e-3), (1e-3, 30, 10), (1, -30, 1e-2), (5, 0, 1e3), (1e-2, 1, 5), (.5, 2, .2),
                (1e-3, -40, 1e-5)][:k]
    if k == 45:
        return list(itertools.product([1e-3, 1., 50.], [-20., -1., 0., 1., 20.], [1e-4, .5, 100.]))
    return list(itertools.product([1e-4, .1, 1., 50.], [-50., -4., -.5, 0., .5, 4., 50.], [1e-5, .5, 100.]))


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 11 if quick else 25):
        for cfl in (1., .9, .75, .5, .3, .1, .99, .02) if quick else [i / 20. for i in range(1, 21)]:
            yield dict(kind='map', N=n, cfl=cfl)
    for n in (16, 33, 50, 64, 101, 129) if quick else (31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 256, 257):
        for cfl in (1., .6):
            yield dict(kind='map', N=n, cfl=cfl, parts=[1., 2.6])
    for n in range(1, 7 if quick else 9):
        for head in itertools.product(range(4), repeat=max(0, n - 3)):
            yield dict(kind='adv', N=n, head=list(head))
    k = 45 if quick else 84
    for g in (1.4, 5 / 3., 3.) if quick else (1.1, 1.4, 5 / 3., 3.):
        for first in range(k):
            yield dict(kind='euler', N=3, k=k, head=[first], gamma=g)
        yield dict(kind='euler', N=1, k=k, head=[], gamma=g)
        yield dict(kind='euler', N=2, k=k, head=[], gamma=g)
        if quick:
            for x in (1.1, 2.2) if g == 1.4 else ():
                yield dict(kind='euler', N=2, k=k, head=[], gamma=x)
        for first in range(9):
            yield dict(kind='euler', N=4, k=9, head=[first], gamma=g)
            if not quick:
                yield dict(kind='euler', N=5, k=10, head=[first], gamma=g)


RKS = ('rk3', 'rk4', 'low_storage_rk4')


def step(a, rk, cfl, nsteps=1, part=1.0, free=False):
    """nsteps steps at the given CFL number (lengths are part of the CFL step); free: a run over part CFL steps with its own step sizes"""
    s = impl.new('advection', 0, a.shape[1])
    impl.put(s, a)
    dt = cfl * s.dx
    d = impl.Deck(rk, nsteps * part * dt * (1 - 1e-12), 2 if free else nsteps + 1, cfl)
    s.t, s.n = 0, 0
    s.rec.clear()
    try:
        impl.rk.integrate(s, d, impl.Solver(s), impl.limiting.Limiter('', s))
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    return [impl.interior(s, r[3])[0, :, 0] for r in s.rec]


def tv(v):
    return float(np.sum(np.abs(v - np.roll(v, 1))))


def run_case(c, obs):
    n = c['N']
    if c['kind'] == 'map':
        # one step, and longer runs with the step sizes of the code
        for rk, part in itertools.product(RKS, c['parts'] if 'parts' in c else (1., 1.3, 1.7, 2.6, 3.37) if c['cfl'] > .4 or n < 5 else (1., 1.7)):
            M = np.zeros((n, n))
            for j in range(n):
                a = np.zeros((1, n, 1))
                a[0, j, 0] = 1.
                out = step(a, rk, c['cfl'], 1, part, True)
                if len(out) != 2:
                    raise Violation('a run with two outputs wrote %d' % len(out))
                M[:, j] = out[1]
                obs.trans()
            obs.note_max('negative_entry', max(0., -np.min(M)))
            if not np.min(M) >= -TOL:
                raise Violation('unit data in one cell makes another cell negative', integrator=rk, cfl=c['cfl'], cells=n, map=M.tolist())
            if not np.max(np.abs(M.sum(1) - 1)) <= TOL * 10:
                raise Violation('a uniform value changes', integrator=rk, cfl=c['cfl'], cells=n, map=M.tolist())
            # the same map wherever the unit is: total variation is not increased for any data
            for j in range(n):
                if not np.max(np.abs(np.roll(M[:, 0], j) - M[:, j])) <= TOL * 10:
                    raise Violation('the map is not the same in all cells', integrator=rk, cfl=c['cfl'], cells=n, map=M.tolist())
            obs.trace()
            obs.state('map', rk, n, c['cfl'], part)
        obs.outcome('map')
    elif c['kind'] == 'adv':
        for tail in itertools.product(range(4), repeat=n - len(c['head'])):
            w = tuple(c['head']) + tail
            a = np.array([VALS[i] for i in w]).reshape(1, n, 1)
            for rk, cfl in zip(RKS, [(1., .6, .95), (.5, 1., .8), (.9, .4, 1.)][sum(w) % 3]):
                out = step(a, rk, cfl, 4) + step(a, rk, cfl, 1, 3.37 - .9 * (sum(w) % 2), True)[1:]
                lo, hi = a.min(), a.max()
                for k, v in enumerate(out):
                    if not (np.min(v) >= lo - 3e-13 and np.max(v) <= hi + 3e-13):
                        raise Violation('values outside the initial range appear', word=w, integrator=rk, cfl=cfl, step=k, values=v.tolist())
                    if k and k < 5 and not tv(v) <= tv(out[k - 1]) + 1e-12:
                        raise Violation('the total variation increases', word=w, integrator=rk, cfl=cfl, step=k, values=v.tolist(),
                                        before=out[k - 1].tolist())
                    obs.state(rk, cfl, v)
                obs.trace()
                obs.trans(4)
        obs.outcome('adv')
    else:
        g = c['gamma']
        st = [ref.cons(*x, g) for x in states(c['k'])]
        for tail in itertools.product(range(c['k']), repeat=n - len(c['head'])):
            w = tuple(c['head']) + tail
            a = np.array([[st[i] for i in w]])
            for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd'))[sum(w) % 2:][:1]:
                s = impl.new('euler', 0, n, 'rusanov', bc=bc, gamma=g)
                impl.put(s, a)
                r = impl.residual(s)
                v = ref.max_speed('euler', a, g)
                h = s.dx / v
                own = s.dx / float(s.max_wave_speed())
                impl.expect_close('the stable time step is not that of the largest signal speed', own, h, 1e-10, h, word=w, gamma=g)
                for part in (1., .5):
                    b = a + part * h * r
                    rho, u, p = ref.prim(b[0], g)
                    obs.note_max('smallest_is_minus', -min(np.min(rho), np.min(p)))
                    if not (np.min(rho) > 0 and np.min(p) > -1e-13 * np.max(np.abs(b))):
                        raise Violation('a step at CFL number %g makes density or pressure negative' % part, states=[states(c['k'])[i] for i in w], gamma=g,
                                        bc=bc, density=rho.tolist(), pressure=p.tolist())
                    obs.trans()
                obs.trace()
                obs.state('euler', g, w, bc)
        obs.outcome('euler')
