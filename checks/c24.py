"""C24 basis, quadrature and projection are exact"""
import itertools
from fractions import Fraction as F

import numpy as np
from numpy.polynomial import Legendre

from mc import impl, ref
from mc.core import Violation

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of orders, basis functions, intervals and shifts on the real code, against exact rational arithmetic'
RULE = ('every order: quadrature of every monomial and Legendre polynomial up to degree 2p+1 (exact rational values), every entry of the basis '
        'tables, all pairs of the mass and integration-by-parts identities; projection of every basis polynomial and sign combination on every '
        'interval; shift of every Legendre polynomial and of sums by every shift of a grid; all product integrals')
BOUNDS = {
    'quick': 'orders 0-13; 60 intervals; shifts of degrees up to 12 by 9 amounts; products of degrees up to 12 x 12',
    'thorough': 'orders 0-16; 400 intervals; degrees up to 14',
}
CHUNK = 1
TOL = 1e-11


def exact_legendre(n):
    """Monomial coefficients of P_n as fractions"""
    a, b = [F(1)], [F(0), F(1)]
    if n == 0:
        return a
    for k in range(1, n):
        t = [F(0)] + [F(2 * k + 1, k + 1) * x for x in b]
        for i, x in enumerate(a):
            t[i] -= F(k, k + 1) * x
        a, b = b, t
    return b


def mul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def integral(a):
    return sum(2 * x / (i + 1) for i, x in enumerate(a) if i % 2 == 0)


def value(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 14 if quick else 17):
        yield dict(kind='tables', p=p)
        for i in range(6 if quick else 20):
            yield dict(kind='projection', p=p, i=i, n=10 if quick else 20)
    d = 12 if quick else 14
    for n in range(d + 1):
        yield dict(kind='shift', n=n)
        yield dict(kind='product', n=n, d=d)


def close(what, got, want, obs, scale=1.0, **kw):
    obs.ev()
    e = impl.expect_close(what, got, want, TOL, scale, **kw)
    obs.note_max(what.split(':')[0], e)


def run_case(c, obs):
    kind = c['kind']
    if kind == 'tables':
        p = c['p']
        b = impl.basis.Basis(p)
        if b.p != p or b.N_s != p + 1 or len(b.x) != p + 1 or b.N_G != p + 1 or b.phi.shape != (p + 1, p + 1) or b.psi.shape != (2, p + 1):
            raise Violation('the basis of order %d has other sizes' % p)
        # exact rational values of the polynomials at the nodes of the code
        xs = [F(float(x)) for x in b.x]
        for k in range(2 * p + 2):
            close('quadrature: degree %d at order %d' % (k, p), float(np.sum(b.w * b.x**k)), 2. / (k + 1) if k % 2 == 0 else 0., obs)
            P = exact_legendre(k)
            close('quadrature: Legendre degree %d at order %d' % (k, p), sum(float(F(float(w)) * value(P, x)) for w, x in zip(b.w, xs)),
                  2. if k == 0 else 0., obs)
        for n in range(p + 1):
            P = exact_legendre(n)
            D = [i * P[i] for i in range(1, n + 1)] or [F(0)]
            for g, x in enumerate(xs):
                close('basis value: function %d at point %d' % (n, g), b.phi[g, n], float(value(P, x)), obs)
                v = float(value(D, x)) * float(b.w[g])
                close('weighted gradient: function %d at point %d' % (n, g), b.dphi_w[n, g], v, obs, 1 + abs(v))
            close('end value: left', b.psi[0, n], (-1.)**n, obs)
            close('end value: right', b.psi[1, n], 1., obs)
            close('mass', b.m[n], float(integral(mul(P, P))), obs)
            close('inverse mass', b.minv[n], 1 / float(integral(mul(P, P))), obs)
            for m in range(p + 1):
                # mass matrix and integration by parts with the tables of the code
                s = sum(b.w[g] * b.phi[g, n] * b.phi[g, m] for g in range(p + 1))
                close('mass matrix: entry %d %d' % (n, m), s, b.m[n] if n == m else 0., obs)
                s = b.dphi_w[n] @ b.phi[:, m] + b.dphi_w[m] @ b.phi[:, n]
                close('integration by parts: %d %d' % (n, m), s, b.psi[1, n] * b.psi[1, m] - b.psi[0, n] * b.psi[0, m], obs, 1 + n * n)
        obs.state('tables', p)
    elif kind == 'projection':
        p = c['p']
        b = impl.basis.Basis(p)
        for j in range(c['n']):
            lo = -5. + 0.77 * c['i'] + 0.3 * j
            hi = lo + [0.001, 0.05, 0.4, 1., 2., 7.][(c['i'] + j) % 6]
            xg = b.shifted_xgauss(lo, hi)
            close('quadrature points of an interval', xg, 0.5 * (hi - lo) * b.x + 0.5 * (hi + lo), obs, 10.)
            for n in range(p + 1):
                for signs in itertools.product((-1., 1.), repeat=min(n, 3)):
                    # P_n plus signed lower ones, scaled to the interval
                    want = np.zeros(p + 1)
                    want[n] = 1.5
                    want[:len(signs)] += signs

                    def f(x):
                        y = (2 * x - lo - hi) / (hi - lo)
                        v = sum(w * ref.P(k, y) for k, w in enumerate(want))
                        return [0.25 - y, float(v), 17.]
                    got = b.projection(lo, hi, f, 1)
                    close('projection: degree %d at order %d' % (n, p), got, want, obs, 10. + 20 / (hi - lo), interval=[lo, hi])
                    obs.state('projection', p, lo, hi, want)
            if p >= 1:
                w = np.zeros(p + 1)
                w[:2] = 0.25, -1
                close('projection: of the first component', b.projection(lo, hi, f), w, obs, 10. + 20 / (hi - lo))
            close('projection: of a constant', b.projection(lo, hi, f, 2), [17.] + [0.] * p, obs, 17.)
    elif kind == 'shift':
        n = c['n']
        for shift in (2, -2, 1, -1, 0, 0.5, -0.25, 3.5, -4):
            for coef in [[0.] * n + [1.], [1.] * (n + 1), [(-.7)**k for k in range(n + 1)]]:
                l = Legendre(coef)
                s = impl.basis.shift_legendre_polynomial(l, shift)
                mono = [F(0)]
                for k, v in enumerate(coef):
                    P = exact_legendre(k)
                    mono = [(mono[i] if i < len(mono) else 0) + F(v) * (P[i] if i < len(P) else 0) for i in range(max(len(mono), len(P)))]
                for x in (-1., -.6, -.1, .3, .8, 1.):
                    want = float(value(mono, F(x) + F(shift)))
                    size = 1 + float(sum(abs(v) for v in mono)) * (1 + abs(shift))**n
                    close('shift: degree %d by %g' % (n, shift), s(x), want, obs, size, at=x)
                if not np.array_equal(l.coef, coef):
                    raise Violation('shifting a polynomial changes it')
                obs.state('shift', n, shift, coef)
    else:
        n = c['n']
        for m in range(c['d'] + 1):
            got = impl.basis.integrate_legendre_product(Legendre.basis(n), Legendre.basis(m))
            close('product integral: %d %d' % (n, m), got, float(integral(mul(exact_legendre(n), exact_legendre(m)))), obs, 1e-0)
            a, b = [.5**k for k in range(n + 1)], [(-.6)**k for k in range(m + 1)]
            got = impl.basis.integrate_legendre_product(Legendre(a), Legendre(b))
            want = sum(a[k] * b[k] * 2. / (2 * k + 1) for k in range(min(n, m) + 1))
            close('product integral: sums', got, want, obs)
            obs.state('product', n, m)
    obs.outcome(kind)
