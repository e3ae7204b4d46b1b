"""C05 the advection operator is linear and exact on polynomials"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a basis of the input space of the real operator, plus all words and polynomials up to the bound'
RULE = ('linearity: the operator is evaluated on every unit vector of the solution space and on every word of cell values; the results '
        'must agree. exactness: every monomial up to the order on every placement of three neighboring cells, the other cells arbitrary. '
        'Non-trivial: a distinct (configuration, solution) with nonzero result')
BOUNDS = {
    'quick': 'orders 0-12 (0-3 with every non-empty subset of neighbor modes, 4-8 with every single mode, pairs and all modes), 1-4 cells, all 4 boundary pairs, 3 cell sizes, words over 4 letters (length <= 3; 2 above order 6); orders 0-3 with every unit vector for 51 numbers of cells from 4 to 300 (0-2 above 50), with units in three cells for 16 more up to 4097; magnitudes 2^-600 to 2^600',
    'thorough': 'orders 0-10 (0-4 with every subset of modes), 1-5 cells, words over 4 letters up to length 4; numbers of cells up to 4097',
}
CHUNK = 1
TOL = 1e-11
# powers of two: scaling by them is exact
MAGNITUDES = [2.0**k for k in (-600, -60, -27, -10, 0, 10, 27, 60, 600)]


def subsets(p):
    for k in range(1, p + 2):
        for m in itertools.combinations(range(p + 1), k):
            yield 'icb ' + ' '.join(map(str, m))


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 7 if quick else 11):
        for enh in [''] + (list(subsets(p)) if p <= (3 if quick else 4) else []):
            for bc in itertools.product(['periodic', 'zerograd'], repeat=2):
                for half in (1, 4, 5):
                    yield dict(p=p, enh=enh, bc=list(bc), half=half, ns=list(range(1, 5 if quick else 6)), L=3 if quick else 4)
    if quick:
        for p in range(7, 13):
            for bc in (('periodic', 'periodic'), ('zerograd', 'periodic')):
                yield dict(p=p, enh='', bc=list(bc), half=1, ns=[1, 2, 3, 4], L=2)
            yield dict(p=p, enh='icb 0', bc=['periodic', 'periodic'], half=4, ns=[1, 3], L=2)
    # higher orders with every single mode of the neighbors, and the first, the last two and all of them
    for p in range(4, 9 if quick else 13):
        modes = [[m] for m in range(p + 1)] + [[0, 1], [p - 1, p]] + ([list(range(p + 1))] if p < 7 else [])
        for i, k in enumerate(modes):
            for bc in (('periodic', 'periodic'), ('zerograd', 'periodic'))[i % 2:][:1]:
                yield dict(p=p, enh='icb ' + ' '.join(map(str, k)), bc=list(bc), half=(1, 4, 5)[i % 3], ns=[1, 3], L=2)
    for n in space.SIZES + ([] if quick else space.SIZES_HUGE):
        for p, enh in [(0, ''), (1, ''), (2, '')] + ([(1, 'icb 0'), (3, ''), (2, 'icb 0 1')] if n <= 50 or not quick else []):
            for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd')):
                yield dict(p=p, enh=enh, bc=list(bc), half=1, ns=[n], L=0)
    for n in space.SIZES_HUGE + space.SIZES_VAST:
        for p, enh in [(0, ''), (1, ''), (2, ''), (1, 'icb 0')]:
            for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd')):
                yield dict(kind='vast', p=p, enh=enh, bc=list(bc), n=n)


def vast(c, obs):
    """Many cells: the response to a unit in three cells gives the operator everywhere but next to the ends"""
    p, n = c['p'], c['n']
    s = impl.new('advection', p, n, '', c['enh'], (), tuple(c['bc']))
    solver = impl.dg.DG(s)

    def op(a):
        impl.put(s, a)
        obs.ev()
        return impl.interior(s, solver.residual(s))
    stencils = []
    for e in (3, n // 2, n - 4):
        st = np.zeros((p + 1, p + 1, 3))
        for m in range(p + 1):
            a = np.zeros((p + 1, n, 1))
            a[m, e] = 1
            r = op(a)[:, :, 0]
            st[m] = r[:, e - 1:e + 2]
            r[:, e - 1:e + 2] = 0
            if np.any(r != 0):
                raise Violation('a cell changes cells that are not its neighbors', cells=n, cell=e, mode=m)
        stencils.append(st)
    norm = 1 + np.max(np.abs(stencils[0]))
    for st in stencils[1:]:
        if not impl.err(st, stencils[0], norm) <= TOL:
            raise Violation('the operator differs between cells', cells=n, got=st.tolist(), expected=stencils[0].tolist())
    i = np.arange((p + 1) * n).reshape(p + 1, n)
    for m in MAGNITUDES:
        a = np.sin(1 + 0.7 * i + 0.1 * i**1.5) + 1.5 * (i % 5 == 0)
        r = op((a * m)[:, :, None])[:, :, 0] / m
        want = sum(np.einsum('mo,me->oe', stencils[0][:, :, 1 + d], np.roll(a, d, axis=1)) for d in (-1, 0, 1))
        e = impl.err(r[:, 2:-2], want[:, 2:-2], norm * 40)
        obs.note_max('linearity_error', e)
        obs.state(p, c['enh'], c['bc'], n, m)
        if not e <= TOL:
            raise Violation('the operator is not linear', cells=n, magnitude=m, error=e)
    obs.outcome('vast')


def run_case(c, obs):
    if c.get('kind') == 'vast':
        return vast(c, obs)
    p, enh, bc = c['p'], c['enh'], tuple(c['bc'])
    cond = 1.0 if not enh else 1e2 if p < 4 else 1e4
    for n in c['ns']:
        s = impl.new('advection', p, n, '', enh, (), bc, 1.4, c['half'])
        size = (p + 1) * n
        cols = np.zeros((size, size))
        solver = impl.dg.DG(s)

        def op(vec):
            impl.put(s, vec.reshape(p + 1, n, 1))
            obs.ev()
            return impl.interior(s, solver.residual(s)).ravel()
        for i in range(size):
            v = np.zeros(size)
            v[i] = 1
            cols[:, i] = op(v)
        norm = 1 + np.max(np.abs(cols))
        if n <= c['L']:
            al = [np.ones(p + 1), np.arange(p + 1) - 1.5, (-1.)**np.arange(p + 1) * 3, np.zeros(p + 1)]
            for w in itertools.product(range(4), repeat=n):
                v = np.array([al[i] for i in w]).T.ravel()
                r = op(v)
                e = impl.err(r, cols @ v, norm * size)
                obs.note_max('linearity_error', e)
                if np.any(r != 0):
                    obs.state(c['p'], enh, bc, c['half'], n, w)
                if not e <= TOL:
                    raise Violation('the operator is not linear', cells=n, word=w, got=r.tolist(), combination=(cols @ v).tolist())
            z = op(np.zeros(size))
            if np.any(z != 0):
                raise Violation('the operator of zero is not zero', got=z.tolist())
        # all cells different, from tiny to huge magnitude
        for m in MAGNITUDES:
            v = np.sin(1 + 0.7 * np.arange(size) + 0.1 * np.arange(size)**1.5)
            v[::5] += 1.5
            r = op(v * m) / m
            e = impl.err(r, cols @ v, norm * min(size, 40))
            obs.note_max('linearity_error', e)
            obs.state(c['p'], enh, bc, c['half'], n, m)
            if not e <= TOL:
                raise Violation('the operator is not linear', cells=n, magnitude=m, error=e)
    # exactness: cell e-1, e, e+1 hold x^k, the others junk
    for n in range(3, c['ns'][-1] + 2) if c['L'] else c['ns']:
        s = impl.new('advection', p, n, '', enh, (), bc, 1.4, c['half'])
        dx = s.dx
        for e in range(n):
            if n == 3 and e != 1 or (e in (0, n - 1) and not (bc == ('periodic', 'periodic') and n > 3)):
                continue
            for k in range(p + 1):
                for junk in (0.0, 7.5):
                    a = np.full((p + 1, n, 1), junk)
                    coef = np.zeros(k + 1)
                    coef[k] = 1
                    for d in (-1, 0, 1):
                        a[:, (e + d) % n, 0] = ref.poly_to_legendre(coef, (d - 0.3) * 1., (d + 0.7) * 1., p)
                    impl.put(s, a)
                    r = impl.interior(s, impl.dg.DG(s).residual(s))[:, e, 0]
                    dc = np.zeros(max(k, 1))
                    if k:
                        dc[k - 1] = k
                    want = -ref.poly_to_legendre(dc, -0.3, 0.7, p) / dx
                    scale = (1 + np.max(np.abs(want))) * (1 + np.max(np.abs(a))) / dx * (p + 1)**2
                    er = impl.err(r, want, scale)
                    obs.ev()
                    obs.note_max('exactness_error_enh%d' % bool(enh), er)
                    if np.any(want != 0):
                        obs.state('x', c['p'], enh, bc, c['half'], n, e, k, junk)
                    if not er <= TOL * cond:
                        raise Violation('the operator is not exact for a polynomial', cells=n, cell=e, power=k,
                                        got=r.tolist(), expected=want.tolist())
    obs.outcome('enhanced' if enh else 'plain')
