"""C31 smooth solutions converge at the expected rate under grid refinement"""
import math

import numpy as np

from mc import impl, ref
from mc.core import Violation

ID = 'C31'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of refinement steps and configurations of whole runs of the real code against exact smooth solutions'
RULE = ('every combination of smooth problem (sine wave, entropy wave, two simple rarefaction waves), interface flux, enhancement, order, '
        'integrator, final time and refinement step: the real program pieces run from the named initial condition to the final time on both '
        'grids; the L2 errors against the exact solution, and against its best approximation, give the rate.  Non-trivial: distinct runs')
BOUNDS = {
    'quick': 'orders 0-4 (5 for advection), 3 fluxes, enhancements "", icb 0, icb 0 1; all 9 integrators for one order each; 2 final times; '
             'grids of 8, 16, 32 cells (to 64 at orders 1-2, 256 at order 0), simple waves on 64 and 128 cells; orders 1-7 on 24/48, 20/40, 12/24, 10/20, 14/28, 6/12/24 and 7/14 cells',
    'thorough': 'orders 0-6, 4 final times, CFL numbers 0.5 and 0.1, every integrator, one more refinement',
}
ASSUMPTIONS = ['only the refinement steps listed in the bounds are explored; the limit of ever finer grids is not',
               'errors below 1e-11 (average errors below 1e-12) are not judged: there rounding dominates']
CHUNK = 1
# largest admitted ratio of the error to that of the best approximation (order 0 has no such bound)
RATIO = 2.2
FLOOR = 1e-11


def cases(tier):
    quick = tier == 'quick'
    times = (.7, 1.3) if quick else (.3, .7, 1.3, 2.)
    for system, flux in [('advection', '')] + [('euler', f) for f in impl.FLUXES]:
        for p in range(0, 5 + (system == 'advection') if quick else 7):
            for enh in ('', 'icb 0') + (('icb 0 1',) if p in (1, 2) else ()):
                ns = [16, 32, 64, 128, 256] if p == 0 else [16, 32, 64] if p < 3 else [8, 16, 32]
                if flux == 'godunov':
                    if enh or p > 2 and quick:
                        continue
                    ns = ns[:-1]
                elif not quick:
                    ns = ns + [2 * ns[-1]]
                if system == 'euler' and p > 2 and quick:
                    ns = ns[:2]
                for T in times[:1 if system == 'euler' and quick else 4]:
                    for cfl in (.5,) if quick else (.5, .1):
                        yield dict(kind='wave', system=system, flux=flux, p=p, enh=enh, ns=ns, T=T, cfl=cfl, rk='rk8' if p > 1 else 'rk4')
    # cell sizes without a short binary or decimal form
    for p in range(1, 8 if quick else 10):
        for ns in ([24, 48], [20, 40]) if p < 3 else ([12, 24], [10, 20], [14, 28]) if p < 5 else ([6, 12, 24], [7, 14]):
            yield dict(kind='wave', system='advection', flux='', p=p, enh='', ns=ns, T=.7, cfl=.5, rk='rk8' if p < 7 else 'rk10')
            if p < 4:
                yield dict(kind='wave', system='euler', flux='roe', p=p, enh='', ns=ns[-2:], T=.3, cfl=.5, rk='rk8')
    for rk in impl.SCHEMES:
        for p in ((min(impl.SCHEME_ORDER[rk] - 1, 2 if rk in ('rk10', 'rk12', 'rk14') else 4),) if quick else range(min(impl.SCHEME_ORDER[rk], 6))):
            yield dict(kind='wave', system='advection', flux='', p=p, enh='', ns=[8, 16] if p > 3 else [16, 32], T=.7, cfl=.5, rk=rk)
            if p < 4:
                yield dict(kind='wave', system='euler', flux='roe', p=p, enh='', ns=[8, 16], T=.3, cfl=.5 if rk != 'rk14' else .1, rk=rk)
    for flux in impl.FLUXES:
        for p in range(0, 4 if quick else 6):
            yield dict(kind='simple', system='euler', flux=flux, p=p, enh='', ns=[64, 128] if quick or flux == 'godunov' else [64, 128, 256], T=.3, cfl=.5, rk='rk8' if p > 3 else 'rk4')


_SIMPLE = []


def simple_wave(x, T):
    """For a ratio of specific heats of 3, u - a and u + a are constant along straight lines with these speeds"""
    if not _SIMPLE:
        _SIMPLE.append(ref.initial('simplew', ['8'], 'euler')[2])
    f0 = _SIMPLE[0]
    w = []
    for s in (-1, 1):
        def w0(y):
            r, m, E = f0(y)
            u = m / r
            return u + s * math.sqrt(6 * (E - .5 * r * u * u) / r)
        lo, hi = x - 4 * T, x + 4 * T
        for _ in range(60):
            m = .5 * (lo + hi)
            if m + T * w0(m) - x < 0:
                lo = m
            else:
                hi = m
        w.append(w0(.5 * (lo + hi)))
    return 1.5 * (w[1] - w[0])


def exact(c):
    T = c['T']
    if c['kind'] == 'simple':
        return lambda x: simple_wave(x, T)
    if c['system'] == 'advection':
        return lambda x: math.sin(2 * math.pi * (x - T))
    return lambda x: 1 + .2 * math.sin(math.pi * (x - T))


def errors(c, N, obs):
    """L2 errors of the run, of the best approximation, and of the cell averages (first field)"""
    p, half = c['p'], 4 if c['kind'] == 'simple' else 1
    name = 'simplew' if half == 4 else 'sinewave' if c['system'] == 'advection' else 'entrpyw'
    s = impl.RecSolution('%s %d' % (name, N), c['system'], p, c['flux'], c['enh'], [])
    s.apply_bc()
    lim = impl.limiting.Limiter('', s)
    lim.limit(s)
    try:
        impl.rk.integrate(s, impl.Deck(c['rk'], c['T'], 2, c['cfl']), impl.Solver(s, 10**6), lim)
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    if len(s.rec) != 2 or not abs(s.rec[-1][1] - c['T']) <= 1e-12:
        raise Violation('the run did not write its two outputs, the last one at the final time')
    u = impl.interior(s, s.rec[-1][3])[:, :, 0]
    x, w = ref.gauss(p + 5)
    f, dx = exact(c), 2. * half / N
    L = np.array([ref.P(n, x) for n in range(p + 1)])
    v = np.array([[f(-half + dx * (e + (y + 1) / 2)) for y in x] for e in range(N)])
    best = np.array([(2 * n + 1) / 2. * (v * w) @ L[n] for n in range(p + 1)])
    obs.ev()
    obs.state(sorted(c.items()), N)

    def norm(d):
        return math.sqrt(float(np.sum(w * d * d)) / 2 / N)
    return norm(u.T @ L - v), norm(best.T @ L - v), math.sqrt(float(np.mean((u[0] - best[0])**2)))


def run_case(c, obs):
    p, k = c['p'], len(c['enh'].split()) - 1 if c['enh'] else 0
    es = [errors(c, N, obs) for N in c['ns']]
    name = '%s %s order %d%s' % (c['kind'] if c['kind'] == 'simple' else c['system'], c['flux'], p, ' enhanced' if k else '')
    kw = dict(configuration=c, errors=[list(map(float, e)) for e in es])
    for (N, a), b in zip(zip(c['ns'], es), es[1:]):
        # between these grids order 0 is not yet close to its rate of 1
        want = p + .88 if c['kind'] == 'wave' else p + .5
        if c['flux'] == 'rusanov' and p in (2, 4):
            want = p + .5
        if p == 0:
            want = .8 if N >= 128 or k or c['kind'] == 'simple' else .15
        if b[0] > FLOOR:
            r = math.log(a[0] / b[0], 2)
            obs.note_max('deficit of the rate, ' + name, p + 1 - r)
            if not r >= want:
                raise Violation('from %d to %d cells the error falls with rate %.2f instead of %d' % (N, 2 * N, r, p + 1), **kw)
        if c['kind'] == 'wave' and c['system'] == 'advection' and p in (1, 2) and N >= 16 and impl.SCHEME_ORDER[c['rk']] > 2 * p + k and b[2] > 1e-12:
            r = math.log(a[2] / b[2], 2)
            obs.note_max('deficit of the rate of the averages, ' + name, 2 * p + 1 + min(k, 1) - r)
            if not r >= 2 * p + 1 + min(k, 1) - (.45 if N < 32 else .25):
                raise Violation('from %d to %d cells the error of the averages falls with rate %.2f' % (N, 2 * N, r), **kw)
    if p and c['kind'] == 'wave':
        for N, e in list(zip(c['ns'], es))[1:]:
            if e[0] > FLOOR:
                obs.note_max('error over best approximation, ' + name, e[0] / e[1])
                if not e[0] <= (3. if c['flux'] == 'rusanov' and p % 2 == 0 and not k else 1.1 if k else RATIO) * e[1]:
                    raise Violation('on %d cells the error is %.2f times that of the best approximation' % (N, e[0] / e[1]), **kw)
    obs.outcome(name)
