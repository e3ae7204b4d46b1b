"""C35 the stability analysis tools analyse the scheme that is run"""
import contextlib
import io
import itertools
import os
import runpy
import sys
import types

import numpy as np

from mc import core, impl
from mc.core import Violation

ID = 'C35'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of orders, mode sets and wave numbers in the real analysis tools, compared with the spectrum of the real operator; every drawn point of the regions'
RULE = ('order x set of neighbor modes: the eigenvalues the analysis tool finds for all its wave numbers against those of the symbol of the real '
        'semi-discrete operator built from unit data; every vertex of every drawn contour of the integrators against the amplification factor of the '
        'real tables, and every boundary point on a grid of lines against the drawn vertices; the sorting helper on every array over a small grid')
BOUNDS = {
    'quick': 'orders 1-4 with all sets of modes, 5-7 with at most one mode, 50 wave numbers; all 8 integrators, some 20000 vertices; exact boundaries of rk3 and rk4; arrays of up to 6 of 9 points',
    'thorough': 'orders 5-9 with all sets of up to 3 modes',
}
ASSUMPTIONS = ['pictures are not rendered (no LaTeX here): what is given to the drawing library is judged',
               'the exact boundary is documented to fail for high orders: rk3 and rk4 only',
               'order 0 has no eigenvalue cloud to sort and is checked without enhancement only at the matrices']
CHUNK = 1
# sympy lives with the tools, not with the program
EXTRA = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def cases(tier):
    quick = tier == 'quick'
    yield dict(kind='regions')
    for rk in ['rk3', 'rk4']:
        yield dict(kind='exact', rk=rk)
    for p in range(1, 8 if quick else 10):
        for k in range(0, p + 2 if p < 5 else 2 if quick else 4):
            for modes in itertools.combinations(range(p + 1), k):
                yield dict(kind='spectrum', p=p, modes=list(modes))
    yield dict(kind='drawn')
    for n in range(1, 7):
        yield dict(kind='sort', n=n)


_TOOL = {}


def tool(name):
    """The real program, run once (with the drawing library, without rendering); returns its names and the figure"""
    if name in _TOOL:
        return _TOOL[name]
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    keep, argv, path, mods = plt.savefig, sys.argv, list(sys.path), dict(sys.modules)
    plt.savefig = lambda *a, **k: None
    sys.argv = [name]
    cwd = os.getcwd()
    os.chdir(os.path.join(core.REPO, 'analysis'))
    sys.path.insert(0, os.getcwd())
    sys.path.append(EXTRA)
    if name == 'rk_stability.py' and not _has('sympy'):
        sys.modules['sympy'] = types.ModuleType('sympy')
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            g = runpy.run_path(name)
    except SystemExit as e:
        raise Violation('the analysis tool %s stopped: %s' % (name, e))
    finally:
        plt.savefig, sys.argv = keep, argv
        sys.path[:] = path
        os.chdir(cwd)
        for m in ('basis', 'enhance', 'rk_coeffs', 'aux_functions'):
            sys.modules.pop(m, None)
    figs = [plt.figure(k) for k in plt.get_fignums()]
    _TOOL[name] = (g, figs, out.getvalue())
    return _TOOL[name]


def _has(name):
    import importlib.util
    return importlib.util.find_spec(name) is not None


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def amplification(rk, z):
    """1 + z b (I - zA)^-1 e of the real tables, for an array of z"""
    c, a, B = impl.table(rk)
    z = np.asarray(z, complex)
    s = len(c)
    K = np.zeros((s,) + z.shape, complex)
    for i in range(s):
        K[i] = 1 + z * np.tensordot(B[i, :i], K[:i], 1) if i else 1
    return 1 + z * np.tensordot(c, K, 1)


def paths(artist):
    if hasattr(artist, 'get_paths'):
        return [p for p in artist.get_paths() if len(p.vertices)]
    return []


def regions(obs):
    import matplotlib.colors as mc
    g, figs, _ = tool('rk_stability.py')
    axes = [a for f in figs for a in f.axes]
    if len(axes) != 1:
        raise Violation('the regions are drawn on %d axes' % len(axes))
    ax = axes[0]
    leg = ax.get_legend()
    if leg is None:
        raise Violation('the regions have no legend')
    names = {}
    for h, t in zip(leg.legend_handles, leg.get_texts()):
        color = h.get_color() if hasattr(h, 'get_color') else h.get_edgecolor()
        names[mc.to_hex(np.asarray(mc.to_rgba(color if not isinstance(color, np.ndarray) or color.ndim == 1 else color[0])))] = t.get_text().lower()
    if sorted(names.values()) != sorted(s for s in impl.SCHEMES if s != 'low_storage_rk4'):
        raise Violation('the legend names %s' % sorted(names.values()))
    verts = {}
    for art in ax.collections:
        for p in paths(art):
            col = mc.to_hex(np.atleast_2d(art.get_edgecolor())[0])
            if col not in names:
                raise Violation('a curve has the color %s of no integrator' % col)
            verts.setdefault(names[col], []).append(p.vertices)
    for rk in names.values():
        v = np.concatenate(verts.get(rk, [np.zeros((0, 2))]))
        z = v[:, 0] + 1j * v[:, 1]
        if len(z) < 100:
            raise Violation('the region of %s is not drawn' % rk)
        # linear interpolation between grid points (at most 0.05 apart along the axes) that have moduli on both sides of 1
        m0 = np.abs(amplification(rk, z))
        todo = np.arange(len(z))
        lo, hi = m0.copy(), m0.copy()
        for h in [0.05 * k / 10. for k in (10, 5, 2, 1, 3, 4, 6, 7, 8, 9)]:
            for d in (1, -1, 1j, -1j):
                m = np.abs(amplification(rk, z[todo] + h * d))
                lo[todo] = np.minimum(lo[todo], m)
                hi[todo] = np.maximum(hi[todo], m)
            todo = np.flatnonzero(~((lo <= 1 + 1e-9) & (hi >= 1 - 1e-9)))
            if not len(todo):
                break
        bad = np.zeros(len(z), bool)
        bad[todo] = True
        obs.ev(len(z))
        obs.note_max('largest_distance_of_modulus_from_1', np.max(np.abs(m0 - 1)))
        if np.any(bad):
            raise Violation('the curve of %s is not where its amplification factor has modulus 1' % rk, at=[str(x) for x in z[bad][:5]],
                            modulus=m0[bad][:5].tolist())
        # complete: every crossing on lines through the window is near a vertex, unless two crossings are close to each other
        x = np.linspace(-5.9, 2.9, 1761)
        for y in np.linspace(-5.8, 5.8, 30):
            for line in (x + 1j * y, x[::1] * 0 + 1j * 0 + (np.linspace(-5.9, 5.9, 1761) * 1j + x[np.abs(x - (y / 5.8 * 4.3 - 1.5)).argmin()])):
                s = np.abs(amplification(rk, line)) > 1 + 1e-6
                w = np.abs(amplification(rk, line)) < 1 - 1e-6
                cr = np.flatnonzero((s[1:] & w[:-1]) | (w[1:] & s[:-1]))
                for i, k in enumerate(cr):
                    if (i and cr[i] - cr[i - 1] < 40) or (i + 1 < len(cr) and cr[i + 1] - cr[i] < 40) or k < 40 or k > len(line) - 40:
                        continue
                    obs.ev()
                    obs.state(rk, line[k])
                    if np.min(np.abs(z - line[k])) > 0.2:
                        raise Violation('the curve of %s misses a part of the boundary' % rk, at=str(line[k]))
        # symmetric
        if np.min([np.min(np.abs(np.conj(q) - z)) for q in z[::7]]) > 1e-9:
            raise Violation('the region of %s is not symmetric' % rk)
    obs.outcome('regions')


def symbol(p, modes, beta):
    """The operator for exp(i beta j) data, times half of the cell size"""
    enh = 'icb ' + ' '.join(map(str, modes)) if modes else ''
    s = impl.build_new('advection', p, 7, '', enh)
    n = 7
    M = np.zeros((p + 1, n, p + 1))
    for k in range(p + 1):
        a = np.zeros((p + 1, n, 1))
        a[k, 3, 0] = 1.
        impl.put(s, a)
        M[:, :, k] = impl.residual(s)[:, :, 0] * s.dx / 2
    # cell j receives M[., j] from cell 3: data exp(i beta (3 - j)) relative to itself
    return np.einsum('ijk,bj->bik', M, np.exp(1j * np.outer(beta, 3 - np.arange(n))))


def match(got, want, what, obs, **kw):
    """Two sets of complex numbers are the same"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation('%s: %d eigenvalues instead of %d' % (what, got.size, want.size), **kw)
    d = np.abs(got[:, None] - want[None])
    sc = 1 + np.max(np.abs(want))
    used = np.zeros(len(want), bool)
    for i in np.argsort(-np.abs(got)):
        k = int(np.argmin(np.where(used, np.inf, d[i])))
        used[k] = True
        obs.ev()
        # nearly defective eigenvalues are off by a root of the rounding error
        if not d[i, k] <= 2e-4 * sc:
            raise Violation('%s: eigenvalue %s is not one of the operator (%.3g away)' % (what, got[i], d[i, k]), **kw)
        obs.note_max('difference', d[i, k] / sc)


def spectrum(c, obs):
    g, _, _ = tool('dg_stability.py')
    import sympy
    T = sympy.Symbol('T')
    p, modes = c['p'], c['modes']
    mats = quiet(g['icb_matrices'], p, modes, T) if modes else quiet(g['dg_matrices'], p, T)
    x, y = quiet(g['get_eigenvalue'], *mats, T)
    n = len(x) // (p + 1)
    if n < 2 or len(x) != n * (p + 1):
        raise Violation('%d eigenvalues at order %d' % (len(x), p), case=c)
    beta = np.linspace(-np.pi, np.pi, n)
    S = symbol(p, modes, beta)
    match(np.asarray(x) + 1j * np.asarray(y), np.linalg.eigvals(S).ravel(), 'order %d, modes %s' % (p, modes), obs, case=c)
    # invariants of every wave number: trace and determinant of the tool's matrices
    Minv, F, G0, G1 = mats
    for b, s in zip(beta, S):
        e = complex(np.exp(1j * b))
        m = np.asarray(Minv) @ (np.array(F, complex) - np.array((G1 - G0).subs(T, e).tolist()).astype(complex))
        sc = 1 + np.max(np.abs(s))
        obs.ev()
        obs.state(p, modes, round(b, 9))
        if not abs(np.trace(m) - np.trace(s)) <= 1e-8 * sc or not abs(np.linalg.det(m) - np.linalg.det(s)) <= 1e-7 * sc**(p + 1):
            raise Violation('order %d, modes %s: other trace or determinant at wave number %g' % (p, modes, b), case=c)
    obs.outcome('spectrum order %d' % p)


def drawn(obs):
    _, figs, text = tool('dg_stability.py')
    ps = [p for f in figs for a in f.axes for col in a.collections for p in paths(col)]
    if len(ps) != 1:
        raise Violation('%d clouds of eigenvalues are drawn' % len(ps))
    v = ps[0].vertices
    if np.array_equal(v[0], v[-1]) or len(v) % 4 == 1:
        v = v[:-1]  # closed
    want = np.linalg.eigvals(symbol(3, [0, 1, 2], np.linspace(-np.pi, np.pi, len(v) // 4))).ravel()
    match(v[:, 0] + 1j * v[:, 1], want, 'drawn', obs)
    ang = np.arctan2(v[:, 1] - v[:, 1].mean(), v[:, 0] - v[:, 0].mean())
    if np.any(np.diff(ang) < -1e-12):
        raise Violation('the drawn eigenvalues are not in radial order')
    nums = [float(w) for w in text.replace(':', ' ').split() if w.lstrip('-').replace('.', '', 1).isdigit() and '.' in w]
    for name, val in (('smallest', want.real.min()), ('largest', want.real.max())):
        if not any(abs(x - val) <= 2e-4 * (1 + abs(val)) for x in nums):
            raise Violation('the %s real part %.9g is not reported' % (name, val), reported=nums)
    obs.state('drawn')
    obs.outcome('drawn')


def exact(c, obs):
    if not _has('sympy'):
        sys.path.append(EXTRA)
    g, _, _ = tool('rk_stability.py')
    import matplotlib.pyplot as plt
    co, B = quiet(g['get_formatted_rk_coeffs'], c['rk'])
    x, y = quiet(g['exact_stability_boundary'], co, B, 7)
    plt.close(7)
    z = np.asarray(x) + 1j * np.asarray(y)
    m = np.abs(amplification(c['rk'], z))
    obs.ev(len(z))
    for q in z:
        obs.state(c['rk'], complex(np.round(q, 9)))
    if len(z) < 100 or not np.max(np.abs(m - 1)) <= 1e-6:
        raise Violation('the exact boundary of %s has amplification factors up to %.9g' % (c['rk'], np.max(m)), points=len(z))
    obs.outcome('exact')


def sort(c, obs):
    sys.path.insert(0, os.path.join(core.REPO, 'analysis'))
    try:
        import aux_functions as auxf
    finally:
        sys.path.pop(0)
    pts = np.array([a + 1j * b for a in (-1., 0.25, 2.) for b in (-1.5, 0.1, 1.)])
    for idx in itertools.permutations(range(len(pts)), c['n']):
        if c['n'] > 4 and idx[0] > 1:
            continue
        r = pts[list(idx)]
        for shape in {(len(r), 1), (1, len(r))} | ({(2, len(r) // 2)} if len(r) % 2 == 0 else set()):
            a = r.reshape(shape)
            b = a.copy()
            x, y = auxf.sort_roots_angle(a)
            got = np.asarray(x) + 1j * np.asarray(y)
            obs.ev()
            if got.shape != r.shape or not np.allclose(np.sort_complex(got), np.sort_complex(r), rtol=0, atol=1e-13):
                raise Violation('sorting changes the roots', roots=[str(q) for q in r], got=[str(q) for q in got])
            d = got - got.mean()
            ang = np.angle(d[np.abs(d) > 1e-9])
            if np.any(np.diff(ang) < -1e-9) and not np.any(np.abs(np.abs(ang) - np.pi) < 1e-9):
                raise Violation('the roots are not in radial order', roots=[str(q) for q in r], got=[str(q) for q in got])
            if not np.array_equal(a, b):
                raise Violation('sorting changes its argument')
        obs.state(idx)
    if c['n'] == 1:
        for i, j in itertools.product(range(-3, 12), repeat=2):
            if auxf.delta(i, j) != (i == j):
                raise Violation('delta(%d, %d) is %r' % (i, j, auxf.delta(i, j)))
        for i, j in ((1, 1.5), (1.5, 1), ('a', 1), (1, None)):
            try:
                r = auxf.delta(i, j)
            except (SystemExit, TypeError):
                continue
            raise Violation('delta(%r, %r) is %r instead of an error' % (i, j, r))
    obs.outcome('sort')


def run_case(c, obs):
    import matplotlib.pyplot as plt
    if c['kind'] == 'regions':
        regions(obs)
    elif c['kind'] == 'spectrum':
        spectrum(c, obs)
    elif c['kind'] == 'drawn':
        drawn(obs)
    elif c['kind'] == 'exact':
        exact(c, obs)
    else:
        sort(c, obs)
