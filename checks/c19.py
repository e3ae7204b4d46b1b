"""C19 the limiter is hierarchical reconstruction with minmod"""
import itertools
import math

import numpy as np

from mc import impl, ref
from mc.core import Violation

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of triples of cell polynomials over coefficient grids, limited by the real limiter, against a reference reconstruction'
RULE = ('every triple (left, center, right) of cell polynomials over the coefficient grid of its order is limited in one chain of flagged cells '
        'and compared with a reference built from the definition; the same for scaled, shifted and mirrored data; every polynomial over three '
        'cells (products of signs and degrees) must be unchanged; at order 1 the face values must stay between the neighboring averages')
BOUNDS = {
    'quick': 'order 0: 9 values; 1: 6 values per coefficient (46656 triples); 2: 3 values (19683); 3: 2 values (4096) in 4 variants; 4: up to 4 nonzero of 15 coefficients with 2 values; 5: up to 3 nonzero of 18 with 3 values; 6: 3 of 21; 7, 8, 10: 2 nonzero; polynomials up to order 10; scales 2^-300 to 2^300; 40 polynomials per order; words of 4 cells over 5 states of both systems, orders 0-8, cells flagged by the sensors',
    'thorough': 'order 1: 8 values; order 2: 4 values (262144); 3: 3 values (531441); 4: 2 values (32768) x4; 5: 2 values (262144); 6: up to 4 nonzero of 21; 7 to 10: 3 nonzero; 12: 2 nonzero',
}
CHUNK = 1
TOL = 2e-12
GRID = {
    'quick': {0: [[-3., -1., -.5, -.1, 0., .2, 1., 1.7, 4.]], 1: [[-1., -.35, 0., .2, .7, 1.3]], 2: [[-1., 0., .6]],
              3: [[-.7, 1.], [-1., 0.], [0., .3], [.25, .5]]},
    'thorough': {0: [[-3., -1., -.5, -.1, 0., .2, 1., 1.7, 4.]], 1: [[-1., -.35, -.1, 0., .2, .7, 1.3, 2.]], 2: [[-1., -.2, 0., .6]],
                 3: [[-.7, 0., 1.]], 4: [[-.7, 1.], [-1., 0.], [0., .3], [.25, .5]], 5: [[-.3, 1.]]},
}
SPARSE = {'quick': {4: (4, [-1., .6]), 5: (3, [-1., .4, 2.]), 6: (3, [-1., .5]), 7: (2, [-1., .4, 2.]), 8: (2, [-1., .5]), 10: (2, [-1., .5])},
          'thorough': {4: (5, [-1., .6]), 5: (4, [-1., .4]), 6: (4, [-1., .5]), 7: (3, [-1., .4, 2.]), 8: (3, [-1., .5]), 9: (3, [-1., .5]), 10: (3, [-1., .5]),
                       12: (2, [-1., .5])}}
BLOCK = 1500


def cases(tier):
    for p, grids in GRID[tier].items():
        for gi, vals in enumerate(grids):
            total = len(vals)**(3 * (p + 1))
            for lo in range(0, total, BLOCK):
                yield dict(kind='grid', p=p, vals=vals, lo=lo, hi=min(total, lo + BLOCK))
    for p in range(0, 11):
        yield dict(kind='polynomial', p=p)
    for p in range(0, 9 if tier == 'quick' else 13):
        for system in ('advection', 'euler'):
            for first in range(5):
                yield dict(kind='system', p=p, system=system, first=first, n=4 if tier == 'quick' else 5)
    for p, (k, vals) in SPARSE[tier].items():
        for first in range(3 * (p + 1)):
            yield dict(kind='sparse', p=p, k=k, vals=vals, first=first)


def limited(a, flip=False):
    """The real limiter on a chain of cells [mode, cell] with every cell flagged"""
    p, n = a.shape[0] - 1, a.shape[1]
    key = (p, n)
    if key not in _S:
        if len(_S) > 8:
            _S.clear()
        s = impl.build_new('advection', p, n, thr=[-1.])
        _S[key] = (s, impl.limiting.Limiter('adaptive_hr', s))
    s, lim = _S[key]
    impl.put(s, a[:, :, None])
    lim.limit(s)
    return impl.interior(s)[:, :, 0]


_S = {}


def compare(a, obs, what='', **kw):
    """a[mode, cell] on a periodic chain against the reference"""
    got = limited(a)
    L, R = np.roll(a, 1, axis=1), np.roll(a, -1, axis=1)
    want = ref.hr_many(a, L, R)
    sc = np.max(np.abs(a), 0)
    sc = np.maximum(np.maximum(sc, np.roll(sc, 1)), np.roll(sc, -1)) + 1e-300
    e = np.max(np.abs(got - want), 0) / sc
    obs.note_max('error_order_%d' % (len(a) - 1), np.max(e))
    obs.ev(a.shape[1])
    tol = TOL * (10**max(0, len(a) - 5))
    if not np.all(e <= tol):
        i = int(np.argmax(~(e <= tol)))
        raise Violation('%sthe limited cell is not the hierarchical reconstruction' % what, left=L[:, i].tolist(), center=a[:, i].tolist(),
                        right=R[:, i].tolist(), got=got[:, i].tolist(), expected=want[:, i].tolist(), error=e[i], **kw)
    if len(a) == 2:
        lo = np.minimum(np.minimum(a[0], L[0]), R[0]) - TOL * sc
        hi = np.maximum(np.maximum(a[0], L[0]), R[0]) + TOL * sc
        for sgn in (-1, 1):
            f = got[0] + sgn * got[1]
            if np.any(f < lo) or np.any(f > hi):
                i = int(np.argmax((f < lo) | (f > hi)))
                raise Violation('a limited linear face value is outside the neighboring averages', left=L[:, i].tolist(),
                                center=a[:, i].tolist(), right=R[:, i].tolist(), got=got[:, i].tolist())
    return got


def relations(a, got, obs):
    """Scaling, constants and reflection"""
    sc = np.max(np.abs(a)) + 1e-300
    n = a.shape[0]
    tol = 1e-10 * 10.**max(0, n - 7)
    for f in (-1., 1e-9, 1e9, 3., 2.**-300, -2.**300):
        impl.expect_close('limiting does not commute with scaling by %g' % f, limited(f * a) / f, got, tol, sc)
    b = a.copy()
    b[0] += 2.5
    g = limited(b)
    g[0] -= 2.5
    impl.expect_close('limiting does not commute with adding a constant', g, got, tol, 2.5 + sc)
    sgn = np.array([(-1.)**k for k in range(n)])[:, None]
    impl.expect_close('limiting does not commute with reflection', sgn * limited((sgn * a)[:, ::-1])[:, ::-1], got, tol, sc)
    obs.ev(7 * a.shape[1])


def chain(tr, p, obs):
    """tr[triple, 3 * mode] as a chain of cells (every cell also forms a triple with its neighbors)"""
    a = tr.reshape(-1, p + 1).T.copy()
    got = compare(a, obs)
    relations(a, got, obs)
    for t in tr:
        obs.state(p, t)


MEAN = dict(advection=[[0.], [1.], [.1], [-.8], [2.5]],
            euler=[impl.conserved(*x) for x in ((1., 0., 1.), (.4, 0., 1.), (1.3, .9, 2.5), (1.1, .05, 1.1), (2.5, -.8, 3.))])


def whole(c, obs):
    """Words of mean values with rough higher modes in every field, flagged in the cells that the sensors choose"""
    p, system = c['p'], c['system']
    thr = [.3] if system == 'advection' else [.2, .1]
    mean = MEAN[system]
    n, nf = c['n'], len(mean[0])
    modes = np.array([[[math.cos(1 + 1.9 * m * m + 2.3 * e + 1.7 * f) * (.5 + f) for f in range(nf)] for e in range(n)] for m in range(p + 1)])
    for rest in itertools.product(range(5), repeat=n - 1):
        a = modes.copy()
        a[0] = [mean[i] for i in (c['first'],) + rest]
        for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd')):
            s = impl.new(system, p, n, '', '', tuple(thr), bc)
            impl.put(s, a)
            impl.limiting.Limiter('adaptive_hr', s).limit(s)
            got = impl.interior(s)
            g, mg = ref.ghosts(a, bc), []
            flags = np.array(ref.sensors(g[0], system, thr, 1.4, mg))[1:-1]
            if min(abs(m) for m in mg) < 1e-9:
                obs.outcome('knife-edge, skipped')
                continue
            want = np.where((flags != 0)[None, :, None], ref.hr_many(g[:, 1:-1], g[:, :-2], g[:, 2:]), a)
            impl.expect_close('a limited solution is not the hierarchical reconstruction of its flagged cells', got, want, TOL * 10.**max(0, p - 4), 8., flags=flags.tolist(),
                              word=(c['first'],) + rest, boundaries=bc)
            obs.ev()
            obs.state('system', system, p, c['first'], rest, bc)
            for x in set(flags.tolist()):
                obs.outcome('%s flag %d' % (system, x))


def run_case(c, obs):
    p = c['p']
    if c['kind'] == 'system':
        return whole(c, obs)
    k = 3 * (p + 1)
    if c['kind'] == 'grid':
        v = np.array(c['vals'])
        idx = np.arange(c['lo'], c['hi'])
        tr = np.stack([v[(idx // len(v)**j) % len(v)] for j in range(k)], 1)
        chain(tr, p, obs)
        obs.outcome('grid order %d' % p)
    elif c['kind'] == 'sparse':
        rows = []
        for m in range(1, c['k'] + 1):
            for rest in itertools.combinations(range(c['first'] + 1, k), m - 1):
                for vals in itertools.product(c['vals'], repeat=m):
                    r = np.zeros(k)
                    r[[c['first'], *rest]] = vals
                    rows.append(r)
        for i in range(0, len(rows), BLOCK):
            chain(np.array(rows[i:i + BLOCK]), p, obs)
        obs.outcome('sparse order %d' % p)
    else:
        # polynomials over the whole (zero-gradient) chain: interior cells see one polynomial over three cells
        for mask in itertools.product((-1., 0., 0.5), repeat=min(p + 1, 4)):
            for hi in range(p + 1):
                coef = np.zeros(p + 1)
                coef[:len(mask)] = mask
                coef[hi] += 1.0
                a = np.array([ref.poly_to_legendre(coef, -1 + 2. * i, 1 + 2. * i, p) for i in range(-2, 3)]).T
                got = limited(a)
                sc = np.max(np.abs(a)) + 1e-300
                obs.ev()
                obs.state('polynomial', p, coef)
                impl.expect_close('a polynomial over three cells is changed by limiting', got[:, 1:-1], a[:, 1:-1], 1e-11 * 10.**max(0, p - 6), sc, polynomial=coef)
                if p > 3:
                    # one more cell polynomial of a higher degree than the sign patterns cover
                    compare(a, obs)
        obs.outcome('polynomial order %d' % p)
