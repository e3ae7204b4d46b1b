"""C04 Euler results are mirror symmetric"""
import itertools

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('every configuration (limiting off or everywhere) x every word of cell states; the run from the mirrored word is '
        'compared with the mirrored run after every step.  Each flux: every ordered pair of a grid of states and its mirror pair.')
BOUNDS = {
    'quick': 'orders 0-3 with rk4, order 1 with the other 8 integrators, 4 boundary pairs (rk4), words of length 1-3 over 4 letters '
             '(3 with enhancement), 2 steps, and 3 steps of uncut CFL size for words of length 2; many numbers of cells from 4 to 2049 with all cells different, 1 step; 7 cells, 40 steps; fluxes: 60 states squared, ratios of specific heats 1.1, 1.4, 5/3, 2.2 and 3',
    'thorough': 'orders 0-4 with all integrators, words of length 1-4 (length 4: 3 letters), 3 steps; numbers of cells up to 4097; 120 steps; fluxes: 224 states squared',
}
ASSUMPTIONS = ['limiting of a part of the cells is excluded: the documented shock sensor looks at one wave family only and is not symmetric']
CHUNK = 4
TOL = 1e-9


def grid(tier):
    if tier == 'quick':
        return list(itertools.product([.125, 1., 6.], [-3., -.75, 0., .75, 3.], [.05, .1, 1., 30.]))
    return list(itertools.product([.125, .5, 1., 6.], [-8., -3., -.75, 0., .5, .75, 3.], [.02, .05, .1, .5, 1., 3., 30., 80.]))


def cases(tier):
    quick = tier == 'quick'
    for g in (1.4, 5 / 3., 3., 1.1, 2.2):
        for fl in impl.FLUXES:
            for i in range(len(grid(tier))):
                yield dict(kind='flux', gamma=g, flux=fl, left=i, tier=tier)
    for c in space.configs(range(0, 4) if quick else range(0, 5), impl.SCHEMES, limiters=('', 'all')):
        if c['system'] != 'euler' or quick and c['rk'] != 'rk4' and c['p'] != 1:
            continue
        if c['p'] > 3 and c['rk'] not in ('rk3', 'rk4', 'low_storage_rk4'):
            continue
        for bc in itertools.product(['periodic', 'zerograd'], repeat=2):
            if c['rk'] != 'rk4' and bc[0] != bc[1]:
                continue
            for n in ((1, 2, 3) if quick else (1, 2, 3, 4)):
                if n == 3 and quick and bc[0] != bc[1] or n == 4 and c['rk'] not in ('rk3', 'rk4', 'low_storage_rk4'):
                    continue
                k = 3 if c['enh'] or n == 4 or (quick and n == 3) else 4
                for w in itertools.product(range(k), repeat=n):
                    yield dict(c, kind='run', word=list(w), bc=list(bc), steps=2 if quick else 3)
                    if n == 2 and bc[0] == bc[1] and c['flux'] != 'godunov':
                        yield dict(c, kind='run', word=list(w), bc=list(bc), steps=3, free=True)
    for c in space.high(limiters=('', 'all')):
        if c['system'] == 'euler':
            for w in ((0, 1, 2), (1, 2)):
                yield dict(c, kind='run', word=list(w), bc=['periodic', 'zerograd'] if c['p'] % 2 else ['zerograd', 'zerograd'], steps=2)
    for c in space.configs(range(0, 3) if quick else range(0, 5), impl.SCHEMES, limiters=('', 'all')):
        if c['system'] != 'euler':
            continue
        ends = [['periodic', 'periodic'], ['zerograd', 'zerograd'], ['periodic', 'zerograd']]
        if c['p'] == 1 and c['rk'] == 'rk4' and not c['enh']:
            for n in space.SIZES + (space.SIZES_HUGE[:1] + [1024, 2049] if quick else space.SIZES_HUGE + space.SIZES_VAST):
                yield dict(c, kind='run', size=n, bc=ends[n % 3], steps=1)
        elif not quick or c['rk'] == 'rk4':
            for n in (33, 101):
                yield dict(c, kind='run', size=n, bc=ends[n % 2], steps=1)
        if c['rk'] in ('rk3', 'rk4', 'low_storage_rk4') and (not quick or c['p'] and not c['enh']):
            yield dict(c, kind='run', size=7, bc=ends[0], steps=40 if quick else 120)


def mirror(a):
    b = a[:, ::-1].copy()
    b[1::2] *= -1
    b[:, :, 1] *= -1
    return b


def fluxes(f, L, R):
    try:
        return np.array(f(np.array(L), np.array(R)))
    except (SystemExit, UnboundLocalError):
        return None  # documented not to converge for extreme states; C09 decides when that is allowed


def run_case(c, obs):
    if c['kind'] == 'flux':
        g = grid(c['tier'])
        s = impl.new('euler', 0, 2, c['flux'])
        impl.constants.gamma = c['gamma']
        for R in g:
            L = g[c['left']]
            F = fluxes(s.riemann, impl.conserved(*L, gamma=c['gamma']), impl.conserved(*R, gamma=c['gamma']))
            G = fluxes(s.riemann, impl.conserved(R[0], -R[1], R[2], gamma=c['gamma']), impl.conserved(L[0], -L[1], L[2], gamma=c['gamma']))
            obs.trans()
            obs.state('f', c['flux'], c['gamma'], L, R)
            if F is None or G is None or np.any(np.isnan(F)) or np.any(np.isnan(G)):
                ok = (F is None) == (G is None)
                obs.outcome(c['flux'] + ' stops or is not a number')
                if not ok:
                    raise Violation('the flux stops with an error for one of two mirror pairs only', left=L, right=R)
                continue
            sp = max(abs(L[1]) + np.sqrt(c['gamma'] * L[2] / L[0]), abs(R[1]) + np.sqrt(c['gamma'] * R[2] / R[0]))
            rho = max(L[0], R[0])
            e = impl.err(G * [-1, 1, -1], F, rho * np.array([sp, sp**2, sp**3]))
            obs.note_max('flux_error_' + c['flux'], e)
            obs.outcome('%s sign=%d' % (c['flux'], np.sign(F[0])))
            if not e <= TOL:
                raise Violation('the flux is not mirror symmetric', left=L, right=R, flux=F.tolist(), mirrored=G.tolist())
        return
    s = space.build(c)
    m = space.build(c)
    m.bc_l, m.bc_r = s.bc_r, s.bc_l
    impl.put(m, mirror(impl.interior(s)))
    a = impl.run(s, c['rk'], c['steps'], limiter=c['lim'], free=c.get('free', False))
    b = impl.run(m, c['rk'], c['steps'], limiter=c['lim'], free=c.get('free', False))
    obs.trace(2)
    scale = 1 + np.max(np.abs(a[0][3]))
    for x, y in zip(a, b):
        obs.trans()
        obs.state(c, x[3])
        X, Y = impl.interior(s, x[3]), impl.interior(s, y[3])
        e = impl.err(Y, mirror(X), scale)
        obs.note_max('run_error', e)
        if x[2] != y[2] or not e <= TOL:
            raise Violation('the run is not mirror symmetric', output=x[0], error=e, result=X.tolist(), mirrored=Y.tolist())
    obs.outcome('run limited=%s' % bool(c['lim']))
