"""Independent reference model of the documented method (no code of dg1d is used here).

Data layout: a[mode, cell, field], interior cells only.
"""
import math

import numpy as np


# ------------------------------------------------------------------------------------------ polynomials
def P(n, x):
    """Legendre polynomial by its three-term recurrence"""
    x = np.asarray(x, float)
    a, b = np.ones_like(x), x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, ((2 * k + 1) * x * b - k * a) / (k + 1)
    return b


def dP(n, x):
    """Derivative of the Legendre polynomial: sum of (2k+1) P_k for k = n-1, n-3, ..."""
    x = np.asarray(x, float)
    s = np.zeros_like(x)
    for k in range(n - 1, -1, -2):
        s = s + (2 * k + 1) * P(k, x)
    return s


_G = {}


def gauss(n):
    """Gauss-Legendre nodes and weights by Newton's iteration"""
    if n not in _G:
        x = np.cos(np.pi * (np.arange(n, 0, -1) - 0.25) / (n + 0.5))
        for _ in range(100):
            x = x - P(n, x) / dP(n, x)
        w = 2. / ((1 - x * x) * dP(n, x)**2)
        _G[n] = (x, w)
    return _G[n]


def evaluate(c, x):
    """Value of a Legendre series (first axis) at points x; shape (len(x), ...)"""
    return np.tensordot(np.array([P(n, x) for n in range(len(c))]).T, c, 1)


def project(f, a, b, p):
    """Gauss-quadrature Legendre projection of f on [a, b] with p+1 points; f returns a list of fields"""
    x, w = gauss(p + 1)
    v = np.array([f(0.5 * (b - a) * xi + 0.5 * (b + a)) for xi in x], float)
    return np.array([(2 * n + 1) / 2. * np.dot(w * P(n, x), v) for n in range(p + 1)])


def poly_to_legendre(coef, a, b, p):
    """Exact Legendre coefficients on [a, b] of the polynomial sum coef[k] x^k"""
    q = max(p, len(coef)) + 1
    x, w = gauss(q)
    y = 0.5 * (b - a) * x + 0.5 * (b + a)
    v = sum(c * y**k for k, c in enumerate(coef))
    return np.array([(2 * n + 1) / 2. * np.dot(w * P(n, x), v) for n in range(p + 1)])


# ------------------------------------------------------------------------------------------ Euler
def prim(U, g):
    rho = U[..., 0]
    u = U[..., 1] / rho
    p = (g - 1) * (U[..., 2] - 0.5 * rho * u * u)
    return rho, u, p


def cons(rho, u, p, g):
    return np.array([rho, rho * u, p / (g - 1) + 0.5 * rho * u * u])


def euler_flux(U, g):
    rho, u, p = prim(U, g)
    return np.stack([rho * u, rho * u * u + p, u * (U[..., 2] + p)], -1)


def rusanov(L, R, g):
    rl, ul, pl = prim(L, g)
    rr, ur, pr = prim(R, g)
    s = max(abs(ul) + math.sqrt(g * pl / rl), abs(ur) + math.sqrt(g * pr / rr))
    return (euler_flux(L, g) + euler_flux(R, g)) / 2 - s / 2 * (R - L)


def roe(L, R, g, sides=None):
    """Roe's flux; the branch of the entropy correction (None, or spread) of both acoustic waves is
    appended to `sides` if it is a list"""
    rl, ul, pl = prim(L, g)
    rr, ur, pr = prim(R, g)
    al, ar = math.sqrt(g * pl / rl), math.sqrt(g * pr / rr)
    wl, wr = math.sqrt(rl), math.sqrt(rr)
    u = (wl * ul + wr * ur) / (wl + wr)
    hl, hr = (L[2] + pl) / rl, (R[2] + pr) / rr
    h = (wl * hl + wr * hr) / (wl + wr)
    a = math.sqrt((g - 1) * (h - u * u / 2))
    lam = [u - a, u, u + a]
    left = [ul - al, ul, ul + al]
    right = [ur - ar, ur, ur + ar]
    ab = [abs(x) for x in lam]
    for k in (0, 2):
        spread = 4 * (right[k] - left[k])
        fix = spread > 0 and ab[k] < spread / 2
        if sides is not None:
            sides.append((fix, spread, abs(ab[k] - spread / 2)))
        if fix:
            ab[k] = ab[k]**2 / spread + spread / 4
    # right eigenvectors as columns; wave strengths from R - L by solving the linear system
    M = np.array([[1, 1, 1], [u - a, u, u + a], [h - u * a, u * u / 2, h + u * a]])
    rho = wl * wr
    w = np.array([(pr - pl - rho * a * (ur - ul)) / (2 * a * a), (rr - rl) - (pr - pl) / (a * a),
                  (pr - pl + rho * a * (ur - ul)) / (2 * a * a)])
    return (euler_flux(L, g) + euler_flux(R, g)) / 2 - M @ (np.array(ab) * w) / 2


def riemann_star(L, R, g):
    """Exact star pressure and velocity for primitive states, or None for vacuum"""
    rL, uL, pL = L
    rR, uR, pR = R
    aL, aR = math.sqrt(g * pL / rL), math.sqrt(g * pR / rR)

    def f(p, r, pk, a):
        if p > pk:
            return (p - pk) * math.sqrt(2 / ((g + 1) * r) / (p + (g - 1) / (g + 1) * pk))
        return 2 * a / (g - 1) * ((p / pk)**((g - 1) / (2 * g)) - 1)

    def F(p):
        return f(p, rL, pL, aL) + f(p, rR, pR, aR) + uR - uL
    if 2 * (aL + aR) / (g - 1) <= uR - uL:
        return None
    lo, hi = 1e-300, max(pL, pR)
    while F(hi) < 0:
        hi *= 2
    for _ in range(2000):
        m = math.sqrt(lo * hi) if hi / lo > 4 else .5 * (lo + hi)
        if m == lo or m == hi:
            break
        if F(m) < 0:
            lo = m
        else:
            hi = m
    ps = .5 * (lo + hi)
    us = .5 * (uL + uR) + .5 * (f(ps, rR, pR, aR) - f(ps, rL, pL, aL))
    return ps, us


def riemann_sample(L, R, g, xi):
    """Primitive state of the exact Riemann solution at x/t = xi"""
    F, ps, us, pat, w = _godunov((L[0], L[1] - xi, L[2]), (R[0], R[1] - xi, R[2]), g)
    return w[0], w[1] + xi, w[2]


def godunov(L, R, g):
    """(flux, p*, u*, pattern) of the exact Riemann solution at x/t = 0 for primitive states"""
    x = _godunov(L, R, g)
    return None if x is None else x[:4]


def _godunov(L, R, g):
    st = riemann_star(L, R, g)
    if st is None:
        return None
    ps, us = st

    def side(r, u, p, sgn):
        a = math.sqrt(g * p / r)
        u, v = sgn * u, sgn * us
        if ps > p:
            S = u - a * math.sqrt((g + 1) / (2 * g) * ps / p + (g - 1) / (2 * g))
            if S >= 0:
                return r, sgn * u, p, 'shock-super'
            return r * ((ps / p + (g - 1) / (g + 1)) / ((g - 1) / (g + 1) * ps / p + 1)), us, ps, 'shock'
        if u - a >= 0:
            return r, sgn * u, p, 'rare-super'
        as_ = a * (ps / p)**((g - 1) / (2 * g))
        if v - as_ <= 0:
            return r * (ps / p)**(1 / g), us, ps, 'rare'
        aa = 2 / (g + 1) * (a + (g - 1) / 2 * u)
        return r * (aa / a)**(2 / (g - 1)), sgn * aa, p * (aa / a)**(2 * g / (g - 1)), 'sonic'
    w = side(L[0], L[1], L[2], 1) if us >= 0 else side(R[0], R[1], R[2], -1)
    r, u, p, pat = w
    E = p / (g - 1) + .5 * r * u * u
    other = ('S' if ps > L[2] else 'R') + ('S' if ps > R[2] else 'R')
    return np.array([r * u, r * u * u + p, (E + p) * u]), ps, us, '%s/%s/%s' % (other, 'L' if us >= 0 else 'R', pat), (r, u, p)


def vacuum(L, R, g):
    """Flux at x/t = 0 of the exact Riemann solution with vacuum between its rarefactions"""
    for (r, u, p), s in ((L, 1), (R, -1)):
        a, u = math.sqrt(g * p / r), s * u
        if u - a >= 0:
            return euler_flux(np.array(cons(r, s * u, p, g)), g)
        if u + 2 * a / (g - 1) > 0:
            b = 2 / (g + 1) * (a + (g - 1) / 2 * u)
            return euler_flux(np.array(cons(r * (b / a)**(2 / (g - 1)), s * b, p * (b / a)**(2 * g / (g - 1)), g)), g)
    return np.zeros(3)


def flux_function(system, name, g):
    if system != 'euler':
        return lambda L, R: L
    if name == 'godunov':
        def f(L, R):
            return godunov(prim(L, g), prim(R, g), g)[0]
        return f
    if name == 'rusanov':
        return lambda L, R: rusanov(L, R, g)
    return lambda L, R: roe(L, R, g)


def physical_flux(system, U, g):
    return euler_flux(U, g) if system == 'euler' else U


def max_speed(system, a, g):
    if system != 'euler':
        return 1.0
    rho, u, p = prim(a[0], g)
    return float(np.max(np.abs(u) + np.sqrt(g * p / rho)))


# ------------------------------------------------------------------------------------------ DG
def ghosts(a, bc):
    """Adds the two ghost cells"""
    l = a[:, -1] if bc[0] == 'periodic' else a[:, 0]
    r = a[:, 0] if bc[1] == 'periodic' else a[:, -1]
    return np.concatenate([l[:, None], a, r[:, None]], 1)


_E = {}


def enhanced_vectors(p, modes):
    """Vectors (own, nb) with right-face value own.u + nb.u_right of the reconstruction in (cell, right cell)"""
    key = (p, tuple(sorted(modes)))
    if key not in _E:
        q = p + len(modes)
        x, w = gauss(q + p + 2)
        A = np.zeros((q + 1, q + 1))
        A[:p + 1, :p + 1] = np.eye(p + 1)
        for i, m in enumerate(key[1]):
            for j in range(q + 1):
                A[p + 1 + i, j] = (2 * m + 1) / 2. * np.sum(w * P(m, x) * P(j, x + 2))
        row = np.linalg.solve(A.T, np.ones(q + 1))
        own, nb = row[:p + 1].copy(), np.zeros(p + 1)
        for i, m in enumerate(key[1]):
            nb[m] = row[p + 1 + i]
        _E[key] = (own, nb)
    return _E[key]


def face_values(g, p, modes=None):
    """(left face, right face) values of every cell that has the neighbors it needs; g includes ghosts.

    Returns (left states, right states) of the interfaces: arrays [interface, field]"""
    sgn = np.array([(-1.)**n for n in range(p + 1)])
    if modes is None:
        lv = np.einsum('n,nef->ef', sgn, g)
        rv = g.sum(0)
        return rv[:-1], lv[1:]
    own, nb = enhanced_vectors(p, modes)
    left = np.einsum('n,nef->ef', own, g[:, :-1]) + np.einsum('n,nef->ef', nb, g[:, 1:])
    right = np.einsum('n,nef->ef', own * sgn, g[:, 1:]) + np.einsum('n,nef->ef', nb * sgn, g[:, :-1])
    return left, right


def dg_rhs(a, dx, system, flux, gam, bc, modes=None, raw=None):
    p = a.shape[0] - 1
    g = ghosts(a, bc)
    left, right = face_values(g, p, modes)
    q = np.array([flux(left[i], right[i]) for i in range(left.shape[0])])
    if raw is not None:
        raw.append(q)
    x, w = gauss(p + 1)
    F = physical_flux(system, evaluate(a, x), gam)
    out = np.zeros_like(a)
    for n in range(p + 1):
        vol = np.tensordot(w * dP(n, x), F, 1)
        out[n] = (2 * n + 1) / dx * (vol - q[1:] + (-1)**n * q[:-1])
    return out


def rk_step(a, dt, t, table, rhs, limit=None):
    """One explicit Runge-Kutta step of da/dt = rhs(t, a)"""
    c, al, be = table
    K = []
    for k in range(len(c)):
        y = a.copy()
        for j in range(k):
            if be[k, j] != 0:
                y = y + dt * be[k, j] * K[j]
        if k > 0 and limit is not None:
            y = limit(y)
        K.append(rhs(t + al[k] * dt, y))
    new = a.copy()
    for k in range(len(c)):
        new = new + dt * c[k] * K[k]
    if limit is not None:
        new = limit(new)
    return new


# ------------------------------------------------------------------------------------------ limiter
def sensors(g0, system, thr, gam, margins=None):
    """Flags of the cells (ghosts included); g0[cell, field] are the cell averages with ghosts.

    Distances of the decisions from their thresholds are appended to `margins` if it is a list"""
    n = g0.shape[0]
    s = [0] * n
    mg = []
    two = {}
    for i in range(n - 1):
        L, R = g0[i], g0[i + 1]
        if system != 'euler':
            f = abs(R[0] - L[0])
            m = 2 * f / (1 + f)**2
            mg.append(1. if float(f).is_integer() else m - thr[0])
            if m > thr[0]:
                s[i] = s[i + 1] = 1
            continue
        rl, ul, pl = prim(L, gam)
        rr, ur, pr = prim(R, gam)
        al, ar = math.sqrt(gam * pl / rl), math.sqrt(gam * pr / rr)
        wl, wr = math.sqrt(rl), math.sqrt(rr)
        u = (wl * ul + wr * ur) / (wl + wr)
        h = (wl * (L[2] + pl) / rl + wr * (R[2] + pr) / rr) / (wl + wr)
        a = math.sqrt((gam - 1) * (h - u * u / 2))
        f = abs((rr - rl) - (pr - pl) / (a * a)) / (rl + rr)
        m = 2 * f / (1 + f)**2
        mg.append(m - thr[0])
        if m > thr[0]:
            s[i] = s[i + 1] = 1
        f = abs(pr - pl) / (pl + pr)
        m = 2 * f / (1 + f)**2
        conj = min(m - thr[1], ul - al - (u - a), (u - a) - (ur - ar))
        mg.append(conj)
        if conj > 0:
            two[i] = two[i + 1] = 1
    for i in two:
        s[i] = 2
    if margins is not None:
        margins += mg
    return s


def minmod(a, b):
    if a * b <= 0:
        return 0.0
    return a if abs(a) < abs(b) else b


def _mono(c):
    """Taylor coefficients at the cell center (u = sum a_n x^n / n!) of a Legendre series"""
    n = len(c)
    out = np.zeros(n)
    coef = np.zeros(n)
    T = [np.array([1.]), np.array([0., 1.])]
    for k in range(1, n):
        t = np.zeros(k + 2)
        t[1:] += (2 * k + 1) * T[k]
        t[:k] -= k * T[k - 1]
        T.append(t / (k + 1))
    for k in range(n):
        coef[:k + 1] += c[k] * T[k][:k + 1]
    for k in range(n):
        out[k] = coef[k] * math.factorial(k)
    return out


def _legendre(a):
    """Inverse of _mono"""
    p = len(a) - 1
    return poly_to_legendre([a[k] / math.factorial(k) for k in range(p + 1)], -1., 1., p)


def _avg(c, lo, hi):
    """Average over [lo, hi] of sum c_k x^k/k!"""
    return sum(ck * (hi**(k + 1) - lo**(k + 1)) / math.factorial(k + 1) for k, ck in enumerate(c)) / (hi - lo)


def hr(uc, ul, ur):
    """Hierarchical reconstruction of the Legendre series of a cell from those of its neighbors"""
    if len(uc) == 1:
        return np.array(uc, float)
    C, L, R = _mono(uc), _mono(ul), _mono(ur)
    p = len(uc) - 1
    new = np.zeros(p + 1)
    for m in range(p, 0, -1):
        # the (m-1)-th derivative: its averages, minus those of the nonlinear part of the limited center
        rem = np.concatenate([[0., 0.], new[m + 1:]])
        vL = _avg(L[m - 1:], -1, 1) - _avg(rem, -3, -1)
        vC = _avg(C[m - 1:], -1, 1) - _avg(rem, -1, 1)
        vR = _avg(R[m - 1:], -1, 1) - _avg(rem, 1, 3)
        new[m] = minmod((vC - vL) / 2, (vR - vC) / 2)
    new[0] = vC
    return _legendre(new)


_T = {}


def hr_many(C, L, R):
    """hr() of many cells at once: arrays [mode, ...]"""
    n = len(C)
    if n == 1:
        return np.array(C, float)
    if n not in _T:
        _T[n] = (np.array([_mono(r) for r in np.eye(n)]).T, np.array([_legendre(r) for r in np.eye(n)]).T)
    fwd, bwd = _T[n]
    C, L, R = (np.tensordot(fwd, x, 1) for x in (C, L, R))
    p = n - 1
    new = np.zeros_like(C)
    zero = np.zeros_like(C[:1])
    for m in range(p, 0, -1):
        rem = np.concatenate([zero, zero, new[m + 1:]])
        vL = _avg(L[m - 1:], -1, 1) - _avg(rem, -3, -1)
        vC = _avg(C[m - 1:], -1, 1) - _avg(rem, -1, 1)
        vR = _avg(R[m - 1:], -1, 1) - _avg(rem, 1, 3)
        a, b = (vC - vL) / 2, (vR - vC) / 2
        new[m] = np.where(a * b <= 0, 0.0, np.where(np.abs(a) < np.abs(b), a, b))
    new[0] = vC
    return np.tensordot(bwd, new, 1)


def limit(a, bc, system, thr, gam, margins=None, flags=None):
    g = ghosts(a, bc)
    s = sensors(g[0], system, thr, gam, margins)
    out = a.copy()
    for e in range(a.shape[1]):
        if s[e + 1]:
            for f in range(a.shape[2]):
                out[:, e, f] = hr(g[:, e + 1, f], g[:, e, f], g[:, e + 2, f])
    if flags is not None:
        flags[:] = s
    return out


# ------------------------------------------------------------------------------------------ initial conditions
def initial(icname, params, system):
    """(A, B, state function, bc, gamma) of the documented initial conditions"""
    g = 1.4
    pi = math.pi
    bc = 'periodic'
    A, B = -1., 1.

    def cons3(r, u, p):
        return [r, r * u, p / (g - 1) + 0.5 * r * u * u]
    if icname == 'sinewave':
        def f(x):
            return [math.sin(2 * pi * x)]
    elif icname == 'ictest':
        def f(x):
            return [math.sin(x - pi / 3)**3 + 1]
    elif icname == 'entrpyw':
        def f(x):
            return cons3(1 + 0.2 * math.sin(pi * x), 1., 1.)
    elif icname == 'acsticw':
        def f(x):
            h = 1e-4 * math.cos(pi * x / 2)**8
            return cons3(1 + h, 0., 1 / g + h)
    elif icname == 'simplew':
        A, B, bc, g = -4., 4., 'zerograd', 3.

        def f(x):
            if abs(x) <= 0.5:
                u = 0.
            elif abs(x) >= 1.5:
                u = math.copysign(2. / 3., x)
            else:
                y = abs(x) - 1
                u = math.copysign((1 + math.tanh(y / (0.25 - y * y))) / 3., x)
            a = 1 - abs(u)
            r = 3 * a
            return cons3(r, u, r * a * a / 3.)
    elif icname == 'scktube':
        bc = 'zerograd'
        xd, rl, ul, pl, rr, ur, pr = [float(v) for v in params[1:8]]

        def f(x):
            return cons3(rl, ul, pl) if x < xd else cons3(rr, ur, pr)
    elif icname == 'shuoshe':
        A, B, bc = 0., 10., 'zerograd'

        def f(x):
            return cons3(3.857143, 2.629369, 10.333333) if x < 1 else cons3(1 + 0.2 * math.sin(5 * (x - 5)), 0., 1.)
    return A, B, f, (bc, bc), g
