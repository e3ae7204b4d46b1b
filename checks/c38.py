"""C38 a standing shock or contact stays where it is"""
import itertools
import math

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C38'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of standing waves under runs of the real code'
RULE = ('every configuration x kind of wave x strength x direction x ratio of specific heats x position at a cell end: the solution after every step is the first one')
BOUNDS = {
    'quick': 'Roe and Godunov; orders 0-3 with rk4, order 1 with the other 8 integrators; with and without limiting; 14 Mach numbers from 1.0001 to 30 and 7 density ratios from 1e-3 to 1e3, '
             '4 ratios of specific heats, both directions, 2-5 cells with the wave at every end; 3 steps, 3 uncut steps and 40 steps',
    'thorough': 'orders 0-6, all integrators, 30 Mach numbers, 8 cells, 300 steps',
}
ASSUMPTIONS = ['Rusanov\'s flux does not keep standing waves; neither does an enhancement, which extrapolates across the wave',
               'Godunov\'s iteration gives pressures to 1e-6, so a standing shock may drift by as much per step with its flux']
CHUNK = 8
MACH = [1.0001, 1.01, 1.1, 1.3, 1.5, 2., 2.5, 3., 4., 5., 7., 10., 20., 30.]
RATIO = [1e-3, .05, .4, .99, 3., 40., 1e3]
GAMMA = [1.4, 5 / 3., 3., 1.1]


def cases(tier):
    quick = tier == 'quick'
    machs = MACH if quick else MACH + [1.001, 1.05, 1.2, 1.4, 1.75, 2.2, 2.8, 3.3, 3.7, 4.5, 6., 8., 9., 12., 15., 25.]
    for flux, p, rk, lim in itertools.product(('roe', 'godunov'), range(4 if quick else 7), impl.SCHEMES, ('', 'adaptive_hr')):
        if quick and rk != 'rk4' and p != 1 or p > 3 and rk not in ('rk4', 'low_storage_rk4'):
            continue
        for kind, k in [('shock', m) for m in machs] + [('contact', r) for r in RATIO]:
            i = machs.index(k) if kind == 'shock' else RATIO.index(k)
            for g in GAMMA if rk == 'rk4' else GAMMA[i % 4:i % 4 + 1]:
                yield dict(flux=flux, p=p, rk=rk, lim=lim, kind=kind, strength=k, gamma=g, long=(40 if quick else 300) if rk in ('rk3', 'low_storage_rk4') and p == 1 else 0)

    for flux, p, rk, lim in itertools.product(('roe', 'godunov'), space.HIGH, ('rk4', 'low_storage_rk4'), ('', 'adaptive_hr')):
        if lim and p > 5:
            continue
        for kind, k in (('shock', 1.5), ('shock', 5.), ('contact', .1)):
            yield dict(flux=flux, p=p, rk=rk, lim=lim, kind=kind, strength=k, gamma=1.4, long=0)


def states(kind, k, g):
    """Left and right state (density, velocity, pressure) of a wave at rest that faces left"""
    if kind == 'contact':
        return (1., 0., 1.), (k, 0., 1.)
    # upstream at rest pressure 1, density 1, moving to the right at Mach number k
    c = math.sqrt(g)
    p = 1 + 2 * g / (g + 1) * (k * k - 1)
    r = (g + 1) * k * k / ((g - 1) * k * k + 2)
    return (1., k * c, 1.), (r, k * c / r, p)


def run_case(c, obs):
    L, R = states(c['kind'], c['strength'], c['gamma'])
    g = c['gamma']
    for turn in (False, True):
        a, b = (L, R) if not turn else tuple((q[0], -q[1], q[2]) for q in (R, L))
        for n in (2, 3, 5):
            for at in range(1, n):
                if n == 5 and at not in (1, 3) or n == 3 and c['rk'] != 'rk4':
                    continue
                for steps, free in ((3, False), (3, True)) if n < 5 else ((c['long'] or 4, False),):
                    s = impl.new('euler', c['p'], n, c['flux'], '', (-1., -1.) if c['lim'] else (), ('zerograd', 'zerograd'), g)
                    u = np.zeros((c['p'] + 1, n, 3))
                    u[0, :at] = impl.conserved(*a, gamma=g)
                    u[0, at:] = impl.conserved(*b, gamma=g)
                    impl.put(s, u)
                    rec = impl.run(s, c['rk'], steps, .4, c['lim'], free=free)
                    obs.trace()
                    v = max(abs(q[1]) + math.sqrt(g * q[2] / q[0]) for q in (a, b))
                    r = max(a[0], b[0])
                    scale = r * np.array([1., v, v * v])
                    for x in rec:
                        obs.trans()
                        obs.state(c['flux'], c['p'], c['rk'], c['lim'], c['kind'], c['strength'], g, turn, n, at, x[2], free)
                        e = impl.err(impl.interior(s, x[3]), u, scale)
                        obs.note_max('change, %s %s' % (c['flux'], c['kind']), e)
                        if not e <= (1e-11 if c['flux'] == 'roe' or c['kind'] == 'contact' else 1e-6 * (1 + x[2])):
                            raise Violation('the standing %s moves or spreads' % c['kind'], left=a, right=b, cells=n, position=at, step=x[2], change=e, solution=impl.interior(s, x[3]).tolist())
    obs.outcome('%s %s%s' % (c['flux'], c['kind'], ' limited' if c['lim'] else ''))
