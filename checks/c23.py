"""C23 initial solutions are the projections of the documented states on an even grid"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of initial conditions, grids and orders constructed by the real code, against reference projections'
RULE = ('every initial condition x number of cells x order; shock tubes for every diaphragm position of a grid (including exactly on quadrature '
        'points) and left/right states; and every sequence of two constructions (the second must not depend on the first)')
BOUNDS = {
    'quick': '1-24, 64 and 101 cells, orders 0-5, more numbers of cells up to 4097 at orders 0-2, 7 initial conditions, 11 diaphragms, 3 shock tubes; diaphragms 10^-2 to 10^-11 from each quadrature point; 1-13 shock-tube parameters; all pairs of constructions',
    'thorough': '1-100 cells, orders 0-8, 41 diaphragms; all triples of constructions',
}
CHUNK = 2
TUBES = ['1 0 1 0.125 0 0.1', '0.5 -1.5 2.5 3.25 0.75 0.4', '2 3 4 5 -6 7']
ICS = [('sinewave', 'advection'), ('ictest', 'advection'), ('entrpyw', 'euler'), ('acsticw', 'euler'), ('simplew', 'euler'), ('shuoshe', 'euler'),
       ('scktube', 'euler')]


def cases(tier):
    quick = tier == 'quick'
    ns = list(range(1, 25)) + [64, 101] if quick else list(range(1, 101)) + [200, 333]
    for p in range(0, 6 if quick else 9):
        for n in ns:
            yield dict(kind='one', p=p, N=n, xd=11 if quick else 41)
    for p in range(6 if quick else 9, 14):
        for n in (1, 2, 3, 4, 5, 7, 12):
            yield dict(kind='one', p=p, N=n, xd=9)
    for n in space.SIZES[20:] + space.SIZES_HUGE + space.SIZES_VAST:
        yield dict(kind='one', p=n % 3, N=n, xd=9)
    for p, n in itertools.product(range(6), (1, 2, 3, 5, 8, 11)):
        yield dict(kind='close', p=p, N=n, digits=(2, 4, 6, 8, 10, 11) if quick else range(1, 12))
    yield dict(kind='refused')
    for first in range(len(ICS)):
        yield dict(kind='sequence', first=first, depth=2 if quick else 3)


def exact(n, p, A, B):
    """Are the quadrature points dyadic numbers that floating-point arithmetic gives exactly?"""
    return p % 2 == 0 and (n & (n - 1) == 0 or (A, B) == (0, 10) and n in (1, 2, 5, 10, 20))


def check(ic, params, system, p, obs, riemann='roe'):
    n = int(params[0])
    s = impl.RecSolution(' '.join([ic] + [str(x) for x in params]), system, p, riemann)
    A, B, f, bc, g = ref.initial(ic, params, system)
    obs.ev()
    what = dict(ic=ic, params=params, order=p)
    if s.N_E != n or s.u.shape != (p + 1, (n + 2) * s.N_F):
        raise Violation('the new solution has %d cells and coefficients of shape %s' % (s.N_E, s.u.shape), **what)
    L = B - A
    edges = np.array([A + L * i / n for i in range(n + 1)])
    impl.expect_close('the cell edges are not an even partition of the domain', s.x, edges, 1e-14, L, **what)
    impl.expect_close('the cell size is wrong', s.dx, L / n, 1e-14, L, **what)
    impl.expect_close('the cell centers are not midway between the edges', s.xc, (edges[1:] + edges[:-1]) / 2, 1e-14, L, **what)
    if (s.bc_l, s.bc_r) != bc or s.t != 0 or s.n != 0:
        raise Violation('a new solution has boundary types %s %s, time %s and step number %s' % (s.bc_l, s.bc_r, s.t, s.n), **what)
    x, _ = ref.gauss(p + 1)
    jumps = {'scktube': [float(params[1])] if ic == 'scktube' else [], 'shuoshe': [1.]}.get(ic, [])
    want = np.zeros((p + 1, n, s.N_F))
    skip = np.zeros(n, bool)
    for e in range(n):
        a, b = edges[e], edges[e + 1]
        q = 0.5 * (b - a) * x + 0.5 * (b + a)
        if jumps and np.min(np.abs(q - jumps[0])) < 1e-12 and (np.min(np.abs(q - jumps[0])) > 0 or not exact(n, p, A, B)):
            skip[e] = True
            obs.outcome('a quadrature point on the jump to rounding, cell skipped')
        want[:, e] = ref.project(f, a, b, p)
    got = impl.interior(s)
    sc = 1 + np.max(np.abs(want))
    # tanh and cos^8 are steep; the arguments differ by rounding
    e = impl.expect_close('the initial solution is not the projection of the documented state', got[:, ~skip], want[:, ~skip], 2e-12, sc, **what)
    obs.note_max('error', e)
    # the documented ratio of specific heats shows in the signal speed
    if system == 'euler' and not skip.any():
        v = ref.max_speed('euler', want, g)
        s.apply_bc()
        impl.expect_close('the signal speed is not that of the documented ratio of specific heats', s.max_wave_speed(), v, 1e-11, v, **what)
    obs.state(ic, params, p)
    obs.outcome(ic)
    return s


def run_case(c, obs):
    if c['kind'] == 'one':
        for ic, system in ICS:
            if ic != 'scktube':
                check(ic, [c['N']], system, c['p'], obs)
                continue
            k = c['xd']
            xs = [0., 0.5, -0.5, 0.25, -1., 1., 0.75] + [-1.2 + 2.4 * i / (k - 7 - 1) for i in range(k - 7)]
            for i, xd in enumerate(xs):
                check(ic, [c['N'], xd] + TUBES[(i + c['p']) % 3].split(), system, c['p'], obs)
    elif c['kind'] == 'close':
        # diaphragms next to each quadrature point, on both sides of it
        x, _ = ref.gauss(c['p'] + 1)
        n = c['N']
        for e, q in itertools.product(range(n), x):
            z = -1 + (2 * e + 1 + q) / n
            for k, side in itertools.product(c['digits'], (-1, 1)):
                check('scktube', [n, z + side * 10.**-k] + TUBES[k % 3].split(), 'euler', c['p'], obs)
        obs.outcome('close')
    elif c['kind'] == 'refused':
        for k, p, fill in itertools.product(range(1, 14), range(3), ('1', '0.5', '7')):
            if k == 8:
                continue
            try:
                impl.RecSolution('scktube ' + ' '.join(['5', '0'][:k] + [fill] * (k - 2)), 'euler', p, 'roe')
            except SystemExit as e:
                if e.code in (0, None):
                    raise Violation('a shock tube with %d parameters ends the program as if all was well' % k)
                obs.ev()
                obs.state('refused', k, p, fill)
                continue
            raise Violation('a shock tube with %d parameters is accepted' % k)
        obs.outcome('refused')
    else:
        for rest in itertools.product(range(len(ICS)), repeat=c['depth'] - 1):
            for i in (c['first'],) + rest:
                ic, system = ICS[i]
                check(ic, [5 + i] + ('0.1 ' + TUBES[0]).split() if ic == 'scktube' else [5 + i], system, 2, obs, impl.FLUXES[i % 3])
        obs.outcome('sequence')
