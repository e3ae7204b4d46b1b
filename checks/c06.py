"""C06 the advection operator never produces energy"""
import itertools

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all pairs of basis vectors (polarization) and of all words up to the bound on the real operator'
RULE = ('the energy balance is a quadratic form in the solution: it is evaluated for the real operator on every unit vector and every sum '
        'and difference of two unit vectors (which decides it for all solutions of that size, the operator being linear, C05), and on '
        'every word of cell values.  Non-trivial: distinct solutions with a nonzero jump')
BOUNDS = {
    'quick': 'orders 0-12, 1-4 cells, 3 cell sizes; words over 4 letters up to length 4; many numbers of cells from 4 to 4097 with 15 solutions each',
    'thorough': 'orders 0-12, 1-6 cells, 3 cell sizes; words over 5 letters up to length 5',
}
CHUNK = 1
TOL = 1e-12


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 13):
        for n in range(1, 5 if quick else 7):
            for half in (1, 4, 5):
                yield dict(p=p, n=n, half=half, k=4 if quick else 5)
    for n in space.SIZES + space.SIZES_HUGE + space.SIZES_VAST:
        yield dict(kind='sizes', n=n, orders=list(range(4 if quick else 9)))


def run_case(c, obs):
    if c.get('kind') == 'sizes':
        for p in c['orders']:
            explore(dict(c, p=p, half=1), obs)
        return
    explore(c, obs)


def explore(c, obs):
    p, n = c['p'], c['n']
    s = impl.new('advection', p, n, '', '', (), ('periodic', 'periodic'), 1.4, c['half'])
    solver = impl.dg.DG(s)
    m = np.arange(p + 1)[:, None, None]

    def check(a, mag=1.):
        impl.put(s, a * mag)
        r = impl.interior(s, solver.residual(s)) / mag
        rate = float(np.sum(s.dx / (2 * m + 1.) * a * r))
        right = a.sum(0)[:, 0]
        left = ((-1.)**m * a).sum(0)[:, 0]
        jump = np.roll(left, -1) - right
        want = -0.5 * float(np.sum(jump**2))
        scale = 1 + float(np.sum(np.abs(a)))**2
        obs.ev()
        e = impl.err(rate, want, scale)
        obs.note_max('error', e)
        if want < 0:
            obs.state(p, n, c['half'], a)
        if not e <= TOL * (p + 1) or not rate <= TOL * (p + 1) * scale:
            raise Violation('the energy rate is not minus half the squared jumps', solution=a.tolist(), rate=rate, expected=want)

    size = (p + 1) * n
    if 'kind' in c:
        i = np.arange(size)
        for v in (np.sin(1 + .7 * i + .01 * i**1.3), np.cos(i**2 * .37), (i % (n + 1) == 0) * 1., (i >= size // 2) * 1.5, (-1.)**i):
            for mag in (1., 2.**-27, 2.**20):
                check(v.reshape(p + 1, n, 1), mag)
        obs.outcome('sizes')
        return
    shape = (p + 1, n, 1)
    for i in range(size):
        v = np.zeros(size)
        v[i] = 1
        check(v.reshape(shape))
        for j in range(i):
            for sg in (1., -1.):
                v = np.zeros(size)
                v[i], v[j] = 1, sg
                check(v.reshape(shape))
    al = [np.zeros(p + 1), np.ones(p + 1), np.arange(p + 1) - 1.5, (-1.)**np.arange(p + 1) * 3, 1. / (1 + np.arange(p + 1))]
    for w in itertools.product(range(c['k']), repeat=n):
        check(np.array([al[i] for i in w]).T.reshape(shape))
    obs.outcome('order %d' % p)
