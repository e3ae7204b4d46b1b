"""C25 enhanced face values come from the documented reconstruction"""
import itertools

import numpy as np

from mc import impl, ref
from mc.core import Violation

ID = 'C25'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of mode sets, listing orders and basis data on the real face evaluation, against a reference reconstruction'
RULE = ('every order x nonempty set of modes x listing order: a unit value in every mode, cell and field (the values are linear, so this decides '
        'all data together with sums of units), sums and scalings, poisoned far cells and unused modes, every polynomial of degree order + number '
        'of modes, mirrored data, and every history of evaluating two solutions that share an enhancement order')
BOUNDS = {
    'quick': 'orders 0-4, all subsets, all listing orders of up to 3 modes (2 of larger sets), both systems, 1-4, 12, 33, 101, 301 and 1025 cells; histories of length 4; orders 5-12, all sets of up to 2 modes',
    'thorough': 'orders 0-5, all listing orders of up to 4 modes, 1-6 and 40 cells; histories of length 6',
}
CHUNK = 2
TOL = 1e-13


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 5 if quick else 6):
        for k in range(1, p + 2):
            for modes in itertools.combinations(range(p + 1), k):
                yield dict(p=p, modes=list(modes), N=[1, 2, 3, 4, 12] if quick else [1, 2, 3, 4, 5, 6, 40], all=3 if quick else 4, depth=4 if quick else 6)
    for p in range(5 if quick else 6, 13):
        yield dict(high=p)


def cond(p, modes):
    """Size of the reconstruction vectors and a rounding amplification of the linear systems behind them"""
    own, nb = ref.enhanced_vectors(p, modes)
    return (1 + np.sum(np.abs(own)) + np.sum(np.abs(nb))) * [1, 1, 1e1, 1e2, 1e3, 1e3, 1e3, 1e3, 1e4, 1e5, 1e6, 1e6, 1e7][p]


def faces(s):
    """States on both sides of the interfaces [interface, field]"""
    f = np.array(s.evaluate_faces(), float)
    return f[1, :-s.N_F].reshape(-1, s.N_F), f[0, s.N_F:].reshape(-1, s.N_F)


def expect(s, mset, obs, what, **kw):
    p = s.basis.p
    g = np.array(s.u).reshape(p + 1, -1, s.N_F)
    l, r = ref.face_values(g, p, mset)
    got = faces(s)
    obs.ev()
    sc = np.max(np.abs(g)) * cond(p, mset) + 1e-300
    for name, x, y in (('left', got[0], l), ('right', got[1], r)):
        e = impl.err(x, y, sc)
        obs.note_max('error_order_%d' % p, e)
        if not e <= TOL:
            raise Violation('the value on the %s side of an interface is not that of the documented reconstruction (%s)' % (name, what),
                            got=x.tolist(), expected=y.tolist(), cells=g.tolist(), order=p, **kw)
    return got


def high(p, obs):
    """High orders: one, two and the extreme three modes in either listing order"""
    for modes in [m for k in (1, 2) for m in itertools.combinations(range(p + 1), k)] + [(0, 1, p), (1, 2, p)]:
        for listing in (modes, modes[::-1])[:len(modes)]:
            s = impl.build_new('advection', p, 3, '', 'icb ' + ' '.join(map(str, listing)))
            shape = s.u.shape
            for i in range(s.u.size):
                s.u = np.zeros(shape)
                s.u.flat[i] = 1.0
                expect(s, modes, obs, 'unit data', modes=listing, unit=i)
            s.u = np.sin(1.3 * np.arange(s.u.size)).reshape(shape) + 0.3
            expect(s, modes, obs, 'general data', modes=listing)
            obs.state(p, listing)
    obs.outcome('order %d' % p)


def run_case(c, obs):
    if 'high' in c:
        return high(c['high'], obs)
    p, modes = c['p'], c['modes']
    listings = list(itertools.permutations(modes))
    if len(modes) > c['all']:
        listings = [listings[0], listings[-1]]
    for system in ('advection', 'euler'):
        for listing in listings:
            enh = 'icb ' + ' '.join(map(str, listing))
            for n in c['N'] if listing == listings[0] else c['N'][1:3]:
                s = impl.new(system, p, n, 'roe', enh)
                # a unit in every mode, cell (ghosts included) and field
                shape = s.u.shape
                for i in range(s.u.size):
                    s.u = np.zeros(shape)
                    s.u.flat[i] = 1.0
                    expect(s, modes, obs, 'unit data', modes=listing, unit=i)
                obs.state(system, p, listing, n)
                for big in (33, 101, 301, 1025) if n == 4 else ():
                    # many cells: general data, and a unit at some positions
                    b = impl.new(system, p, big, 'roe', enh)
                    for data in [np.sin(1.3 * np.arange(b.u.size)) + 0.3] + [np.eye(1, b.u.size, i)[0] for i in range(0, b.u.size, max(37, b.u.size // 40))]:
                        b.u = data.reshape(b.u.shape)
                        expect(b, modes, obs, 'many cells', modes=listing)
                # sums, large and small values
                base = np.sin(1.3 * np.arange(s.u.size)).reshape(shape) + 0.3
                for f in (1.0, 1e6, -1e-6):
                    s.u = base * f
                    got = expect(s, modes, obs, 'general data', modes=listing)
                if n >= 3:
                    # far cells, unused modes of the neighbors and other fields do not enter
                    sc = np.max(np.abs(s.u)) * cond(p, modes)
                    N = s.N_F
                    unused = [m for m in range(p + 1) if m not in modes]
                    for e in range(n + 1):
                        for f in range(N):
                            u = np.array(base * f if False else s.u)
                            t = s.copy()
                            t.u = np.full(shape, 1e30)
                            t.u[:, e * N + f] = u[:, e * N + f]
                            t.u[:, (e + 1) * N + f] = u[:, (e + 1) * N + f]
                            if n > 4 and (e + f) % 5:
                                continue
                            l, r = faces(t)
                            obs.ev()
                            if not (impl.err(l[e, f], got[0][e, f], sc) <= TOL and impl.err(r[e, f], got[1][e, f], sc) <= TOL):
                                raise Violation('the values at an interface depend on cells that are not adjacent or on other fields', interface=e,
                                                field=f, modes=listing, order=p)
                            if unused:
                                t.u = np.array(u)
                                t.u[unused, (e + 1) * N + f] += 1.0
                                l2, _ = faces(t)
                                t.u = np.array(u)
                                t.u[unused, e * N + f] += 1.0
                                _, r2 = faces(t)
                                obs.ev(2)
                                sc1 = sc + cond(p, modes)
                                if not (impl.err(l2[e, f], got[0][e, f], sc1) <= TOL and impl.err(r2[e, f], got[1][e, f], sc1) <= TOL):
                                    raise Violation('the values at an interface depend on modes of the neighbor that are not selected', interface=e,
                                                    field=f, modes=listing, order=p)
                    # mirrored cells and odd modes exchange the sides
                    sgn = np.array([(-1.)**m for m in range(p + 1)])[:, None, None]
                    t = s.copy()
                    t.u = (sgn * np.array(s.u).reshape(p + 1, -1, N)[:, ::-1]).reshape(shape)
                    l, r = faces(t)
                    obs.ev()
                    if not (impl.err(l, got[1][::-1], sc) <= TOL and impl.err(r, got[0][::-1], sc) <= TOL):
                        raise Violation('the values are not mirror symmetric', modes=listing, order=p)
            obs.outcome('%s order %d, %d modes' % (system, p, len(modes)))
    # polynomials over the two cells
    q = p + len(modes)
    s = impl.new('advection', p, 3, '', 'icb ' + ' '.join(map(str, modes)))
    for deg in range(q + 1):
        for low in (0., 0.7):
            def f(x):
                return ref.P(deg, x / 5.) + low * x
            # exact moments of the polynomial in every cell (width 2, centers -4 .. 4)
            x, w = ref.gauss(q + 3)
            g = np.array([[(2 * m + 1) / 2. * np.sum(w * ref.P(m, x) * f(x + 2 * i)) for i in range(-2, 3)] for m in range(p + 1)])
            if deg <= q and (deg > 0 or low == 0 or q >= 1):
                s.u = g
                l, r = faces(s)
                want = np.array([f(-3. + 2 * i) for i in range(4)])[:, None]
                obs.ev()
                obs.state('polynomial', p, modes, deg, low)
                sc = 1 + np.max(np.abs(g)) * cond(p, modes)
                if (deg <= q and low == 0 or q >= 1) and not (impl.err(l, want, sc) <= 10 * TOL and impl.err(r, want, sc) <= 10 * TOL):
                    raise Violation('a polynomial of degree %d over the cells is not reproduced at the interfaces' % deg, modes=modes, order=p,
                                    got=[l.tolist(), r.tolist()], expected=want.tolist())
    # histories: two solutions of different size, evaluated and changed in any order
    for seq in itertools.product(range(4), repeat=c['depth']):
        enh = 'icb ' + ' '.join(map(str, modes))
        two = [impl.new('advection', p, 2, '', enh), impl.new('euler', p, 3, 'roe', enh)]
        for i, s in enumerate(two):
            s.u = np.cos(0.7 * i + np.arange(s.u.size)).reshape(s.u.shape)
        for k, op in enumerate(seq):
            s = two[op % 2]
            if op >= 2:
                s.u = np.cos(k + np.arange(s.u.size)**2).reshape(s.u.shape)
            expect(s, modes, obs, 'history', history=seq, modes=modes)
        obs.state('history', p, modes, seq)
