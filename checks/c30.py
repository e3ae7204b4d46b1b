"""C30 advection runs at CFL 0.5 are stable"""
import itertools

import numpy as np

from mc import impl
from mc.core import Violation

ID = 'C30'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive construction of the one-step map of the real integrator from unit data, whose eigenvalues decide all data and any number of steps'
RULE = ('order x integrator x CFL number x number of cells: the map of one step is built by running the real code on unit data in every mode of '
        'every cell; by translation invariance (checked) it splits into one small matrix per wave number, whose eigenvalues and powers are bounded')
BOUNDS = {
    'quick': 'orders 0-5 (0-9 for all but rk5 and rk14), 9 integrators, CFL numbers 0.5, 0.4, 0.25, 0.1, 0.01, 1-6 cells (and 16 for four integrators, 33 for three, up to 101 at order 0); runs over 1, 1.4, 1.9 and 2.6 CFL steps',
    'thorough': 'orders 0-5 (0-9 for all but rk5 and rk14), 20 CFL numbers up to 0.5, 1-12, 24, 32 cells',
}
CHUNK = 2
ROUND = dict(rk10=1e-12, rk12=1e-9, rk14=1e-8)


def cases(tier):
    quick = tier == 'quick'
    for p in range(6, 10):
        for rk in impl.SCHEMES:
            # the stability regions of the other two are too small
            if rk not in ('rk5', 'rk14'):
                for n in range(1, 5 if quick else 9):
                    yield dict(p=p, rk=rk, N=n, cfls=[.5, .4, .25, .1, .01])
    for p in range(6):
        for rk in impl.SCHEMES:
            if rk in ('rk3', 'rk4', 'low_storage_rk4') and p in (0, 1, 3):
                for n in (33, 50, 101) if not quick or p == 0 else (33,):
                    yield dict(p=p, rk=rk, N=n, cfls=[.5, .4, .1])
            for n in list(range(1, 7)) + ([16] if rk in ('rk3', 'rk4', 'low_storage_rk4', 'rk8') else []) if quick else list(range(1, 13)) + [24, 32]:
                yield dict(p=p, rk=rk, N=n, cfls=[.5, .4, .25, .1, .01] if quick else [.5 * i / 20. for i in range(20, 0, -1)])


def one_step(c, cfl, a, length=1.):
    s = impl.new('advection', c['p'], c['N'])
    impl.put(s, a)
    s.t, s.n = 0, 0
    s.rec.clear()
    try:
        impl.rk.integrate(s, impl.Deck(c['rk'], (1 - 1e-12) * length * cfl * s.dx / (2 * c['p'] + 1), 2, cfl), impl.Solver(s, 400), impl.limiting.Limiter('', s))
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    if len(s.rec) != 2:
        raise Violation('a run with two outputs wrote %d' % len(s.rec), configuration=c)
    return impl.interior(s, s.rec[-1][3])[:, :, 0]


def run_case(c, obs):
    p, n = c['p'], c['N']
    m = p + 1
    tol = ROUND.get(c['rk'], 1e-13)
    # a run over one CFL step, and over more with the step sizes of the code
    for cfl, length in [(f, 1.) for f in c['cfls']] + [(.5, 1.4), (.5, 1.9), (.5, 2.6)] * (n <= 6):
        M = np.zeros((m, n, m, n))
        for k, e in itertools.product(range(m), range(n)):
            a = np.zeros((m, n, 1))
            a[k, e, 0] = 1.
            M[:, :, k, e] = one_step(c, cfl, a, length)
            obs.ev()
        kw = dict(configuration=c, cfl=cfl, length=length)
        big = 1 + np.max(np.abs(M))
        for e in range(1, n):
            if not np.max(np.abs(np.roll(M[:, :, :, 0], e, axis=1) - M[:, :, :, e])) <= tol * 100 * big:
                raise Violation('the step is not the same in all cells', **kw)
        # the total of the averages is kept
        tot = M[0].sum(0)
        want = np.zeros((m, n))
        want[0] = 1.
        if not np.max(np.abs(tot - want)) <= tol * 100 * big:
            raise Violation('the total changes in a step', totals=tot.tolist(), **kw)
        # energy norm: modes scaled to unit length
        D = np.sqrt(1. / (2 * np.arange(m) + 1))
        for w in range(n // 2 + 1):
            z = np.exp(-2j * np.pi * w * np.arange(n) / n)
            B = np.einsum('iek,e->ik', M[:, :, :, 0], z)
            B = (D[:, None] * B) / D[None]
            rad = float(np.max(np.abs(np.linalg.eigvals(B))))
            obs.note_max('spectral_radius_minus_1_' + c['rk'], rad - 1)
            # a nearly defective eigenvalue may be off by a root of the rounding error
            if not rad <= 1 + max(tol * 1e3, 1e-10):
                raise Violation('an eigenvalue of the step has modulus %.12g' % rad, wave_number=w, **kw)
            # and no power grows (a defective eigenvalue of modulus 1 would)
            X = B
            for q in range(1, 25):
                X = X @ X
                nrm = float(np.linalg.norm(X, 2))
                if q <= 14:
                    obs.note_max('largest_power_norm', nrm)
                    if not nrm <= 10.:
                        raise Violation('the solution grows by a factor %.3g in %d steps' % (nrm, 2**q), wave_number=w, **kw)
            obs.state(p, c['rk'], n, cfl, length, w)
        one = np.zeros((m, n))
        one[0] = 1.
        u = np.einsum('iekf,kf->ie', M, one)
        if not np.max(np.abs(u - one)) <= tol * 100 * big:
            raise Violation('a uniform value changes in a step', **kw)
    obs.outcome('%s order %d' % (c['rk'], p))
