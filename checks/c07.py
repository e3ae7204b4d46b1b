"""C07 the semi-discrete operator is the DG weak form, with a compact stencil"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of words of cell states on the real operator against an independent weak-form reference'
RULE = ('every system, order, interface flux, enhancement, boundary pair, cell size x every word of cell states: the operator is '
        'compared with the reference weak form, and every cell outside the stencil is replaced by every other letter. '
        'Non-trivial: distinct configurations and words with nonzero operator')
BOUNDS = {
    'quick': 'orders 0-5 (6-12 with fewer combinations), words of length 1-3 over 4 letters and length 4-5 up to rotation over 2 letters, 4 boundary pairs, 3 cell sizes, ratios of specific heats 1.4, 2.2 and 3, one word of 40 cells; many numbers of cells from 4 to 2049 with all cells different, every cell (above 66: every ninth) changed',
    'thorough': 'orders 0-8, words of length 1-4 over 4 letters and length 5-6 up to rotation over 2 letters; numbers of cells up to 4097',
}
CHUNK = 2
TOL = 1e-11


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 6 if quick else 9):
        for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'), ('euler', 'godunov'), ('euler', 'other')):
            enhs = space.enhancements(p, 2) if p <= 3 else ['']
            for enh in enhs:
                for bc in itertools.product(['periodic', 'zerograd'], repeat=2):
                    for half, gamma in ((1, 1.4), (4, 3.0), (5, 2.2)):
                        yield dict(p=p, system=system, flux=flux, enh=enh, bc=list(bc), half=half, gamma=gamma, tier=tier,
                                   dense=not quick or (bc[0] == bc[1] and half != 5))
    if quick:
        for p in range(6, 13):
            for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov')):
                for bc in ('periodic', 'zerograd'):
                    yield dict(p=p, system=system, flux=flux, enh='', bc=[bc, bc], half=4, gamma=1.4, tier=tier, dense=False)
    for n in space.SIZES + (space.SIZES_HUGE[:1] + [1024, 2049] if quick else space.SIZES_HUGE + space.SIZES_VAST):
        for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'), ('euler', 'godunov')):
            for p, enh in [(1, '')] + ([(0, ''), (3, ''), (1, 'icb 0'), (2, 'icb 0 1')] if n in space.SIZES_FEW or not quick else []):
                bc = ('periodic', 'periodic') if n % 2 else ('zerograd', 'zerograd')
                yield dict(p=p, system=system, flux=flux, enh=enh, bc=list(bc), half=1, gamma=1.4 if n % 3 else 5 / 3., size=n)


def sizes(c, obs):
    """Larger numbers of cells: the weak form, and the change of every third cell"""
    g, p, n = c['gamma'], c['p'], c['size']
    modes = [int(m) for m in c['enh'].split()[1:]] if c['enh'] else None
    bc = tuple(c['bc'])
    s = space.build(c)
    a0 = impl.interior(s)
    solver = impl.dg.DG(s)
    r = impl.interior(s, solver.residual(s))
    obs.ev()

    def flux(L, R):
        return np.array(s.riemann(np.array(L), np.array(R)))
    raw = []
    want = ref.dg_rhs(a0, s.dx, c['system'], flux if c['flux'] == 'godunov' else ref.flux_function(c['system'], c['flux'], g), g, bc, modes, raw)
    scale = (1 + np.max(np.abs(raw[0]))) / s.dx * (2 * p + 1)
    e = impl.err(r, want, scale)
    obs.note_max('error', e)
    obs.state(p, c['system'], c['flux'], c['enh'], bc, n)
    if not e <= TOL:
        bad = np.unravel_index(np.argmax(np.abs(r - want)), r.shape)
        raise Violation('the operator is not the weak form', cells=n, mode_cell_field=[int(i) for i in bad], error=e)
    for j in range(0, n, 1 if n <= 66 else 9):
        a = a0.copy()
        a[:, j] *= 1.03
        impl.put(s, a)
        r2 = impl.interior(s, solver.residual(s))
        obs.ev()
        d = np.where(np.any(np.abs(r2 - r) > TOL * scale, axis=(0, 2)))[0]
        far = [int(i) for i in d if min(abs(i - j), n - abs(i - j)) > 1]
        if far:
            raise Violation('the operator in a cell depends on a cell that is not its neighbor', cells=n, changed=j, other=far)
    obs.outcome('sizes %s %s' % (c['system'], c['flux']))


def words(c):
    k = 3 if c['enh'] and c['system'] == 'euler' else 4
    top = 3 if c['tier'] == 'quick' else 4
    if not c['dense']:
        top, k = 2, 3
    for n in range(1, top + 1):
        yield from itertools.product(range(k), repeat=n)
    for n in (top + 1, top + 2):
        yield from impl.necklaces(2, n)
    yield tuple((i * i) % 3 for i in range(40))


def run_case(c, obs):
    if 'size' in c:
        return sizes(c, obs)
    g, p = c['gamma'], c['p']
    modes = [int(m) for m in c['enh'].split()[1:]] if c['enh'] else None
    bc = tuple(c['bc'])
    exact = ref.flux_function(c['system'], c['flux'], g)
    for w in words(c):
        n = len(w)
        s = space.build(dict(c, word=w))
        a0 = impl.interior(s)
        r = impl.interior(s, impl.dg.DG(s).residual(s))
        obs.ev()
        if not np.array_equal(impl.interior(s), a0):
            raise Violation('evaluating the operator changes the solution', word=w)
        if c['flux'] == 'godunov':
            def flux(L, R):
                return np.array(s.riemann(np.array(L), np.array(R)))
        else:
            flux = exact
        raw = []
        want = ref.dg_rhs(a0, s.dx, c['system'], flux, g, bc, modes, raw)
        scale = (1 + np.max(np.abs(raw[0]))) / s.dx * (2 * p + 1)
        e = impl.err(r, want, scale)
        obs.note_max('error', e)
        if not e <= TOL:
            raise Violation('the operator is not the weak form', word=w, got=r.tolist(), expected=want.tolist())
        if c['flux'] == 'godunov' and n <= 3:
            raw2 = []
            ref.dg_rhs(a0, s.dx, c['system'], exact, g, bc, modes, raw2)
            if not impl.err(raw[0], raw2[0], 1 + np.max(np.abs(raw2[0]))) < 2e-5:
                raise Violation("Godunov's flux is not used", word=w)
        if np.any(np.abs(r) > 1e-8):
            obs.state(p, c['system'], c['flux'], c['enh'], bc, c['half'], w)
        # compact stencil
        if c['dense'] and 3 <= n <= 5:
            k = 3 if c['enh'] and c['system'] == 'euler' else 4
            al = space.letters(c['system'], c['enh'], k)
            for j in range(n):
                reach = {j - 1, j, j + 1}
                # the left ghost of a periodic end is the last cell, the right one the first
                if j == n - 1 and bc[0] == 'periodic':
                    reach.add(0)
                if j == 0 and bc[1] == 'periodic':
                    reach.add(n - 1)
                out = [e_ for e_ in range(n) if e_ not in reach]
                if not out:
                    continue
                letter = al[(w[j] + 1) % len(al)]
                s2 = space.build(dict(c, word=w))
                cl = space.cells(c['system'], c['enh'], w)
                cl[j] = letter
                impl.fill(s2, cl)
                r2 = impl.interior(s2, impl.dg.DG(s2).residual(s2))
                obs.ev()
                if not impl.err(r2[:, out], r[:, out], scale) <= TOL:
                    raise Violation('the operator in a cell depends on a cell that is not its neighbor', word=w, changed=j,
                                    before=r.tolist(), after=r2.tolist())
    obs.outcome('%s %s %s' % (c['system'], c['flux'], c['enh']))
