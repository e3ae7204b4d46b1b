"""C37 uniform pressure and velocity only carry the density along"""
import itertools

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C37'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of runs of the real code in lockstep with runs of its own advection solver'
RULE = ('every configuration x every word of density states x velocity, pressure, ratio of specific heats and contrast of densities: after every step velocity and pressure are '
        'still uniform (as polynomials), and with the Roe and Godunov fluxes the density is that of an advection run')
BOUNDS = {
    'quick': 'orders 0-3 with rk4, order 1 with the other 8 integrators; words of length 1-3 over 4 letters; 12 combinations of velocity, pressure and ratio of specific heats, density contrasts 0.1, 0.5 and 5; 3 steps; 33 cells, 12 steps',
    'thorough': 'orders 0-6, all integrators, words of length up to 4, 30 combinations, 40 steps',
}
ASSUMPTIONS = ['densities stay positive: contrasts are scaled so that every density in a cell is positive by a margin']
CHUNK = 4
TOL = 1e-11
FLOWS = [(1., 1., 1.4), (-1., 1., 1.4), (.25, 2., 1.4), (-.5, .1, 1.4), (3., .5, 1.4), (-4., 1., 1.4), (2., 20., 3.), (-.3, 1., 3.), (5., .1, 5 / 3.), (-1.5, .7, 5 / 3.), (.01, 1., 1.4), (-1e-3, 3., 1.2)]
MORE = [(u, p, g) for u in (-7., -.9, .7) for p in (.05, 8.) for g in (1.1, 1.4, 2.)]


def cases(tier):
    quick = tier == 'quick'
    flows = FLOWS + ([] if quick else MORE)
    for c in space.configs(range(0, 4) if quick else range(0, 7), impl.SCHEMES, limiters=('', 'all', 'some')):
        if c['system'] != 'euler' or quick and c['rk'] != 'rk4' and (c['p'] != 1 or c['enh']):
            continue
        if c['p'] > 3 and c['rk'] not in ('rk4', 'low_storage_rk4'):
            continue
        i = 0
        for n in (1, 2, 3) if quick else (1, 2, 3, 4):
            if n >= 3 and (c['rk'] != 'rk4' or c['enh'] and quick) or n == 4 and c['flux'] == 'godunov':
                continue
            for w in itertools.product(range(4 if n < 3 else 3), repeat=n):
                if n > 1 and len(set(w)) == 1:
                    continue
                k = range(len(flows)) if n == 2 and c['rk'] == 'rk4' and (not c['enh'] or not quick) and sum(w) < 4 else [(i + j) % len(flows) for j in (0, 5)]
                i += 1
                bc = (['periodic', 'periodic'], ['zerograd', 'zerograd'])[i % 2]
                yield dict(c, word=list(w), bc=bc, flows=[list(flows[j]) for j in k], contrast=(.1, .5, 5.)[i % 3] if not c['enh'] else .1, steps=3)
                if n == 2 and not c['enh'] and (c['rk'] == 'rk4' or sum(w) == 1):
                    yield dict(c, word=list(w), bc=bc, flows=[list(flows[j]) for j in (k if c['rk'] == 'rk4' and not c['lim'] else k[:2])], contrast=300. if c['p'] == 0 else 20., steps=3 if c['p'] == 0 else 1)
        if c['rk'] in ('rk3', 'rk4', 'low_storage_rk4') and (c['p'] in (1, 2) or not quick):
            yield dict(c, size=33, bc=['periodic', 'periodic'], flows=[list(f) for f in flows[:6]], contrast=.3, steps=12 if quick else 40)

    for i, c in enumerate(space.high()):
        if c['system'] == 'euler':
            yield dict(c, word=[0, 1, 2], bc=['periodic', 'periodic'], flows=[list(flows[(i + j) % len(flows)]) for j in (0, 3, 5)], contrast=.1, steps=2)


def integrate(s, c, dt):
    cfl = 1e9
    s.rec.clear()
    try:
        impl.rk.integrate(s, impl.Deck(c['rk'], c['steps'] * dt, c['steps'] + 1, cfl), impl.Solver(s, 10**5), impl.limiting.Limiter(c['lim'], s))
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    return list(s.rec)


def mirror(a):
    b = a[:, ::-1].copy()
    b[1::2] *= -1
    return b


def run_case(c, obs):
    adv = space.build(dict(c, system='advection', flux='', soft=False))
    base = impl.interior(adv)
    # the density: one, plus data whose modes add up to at most the contrast below it
    low = np.max(np.sum(np.abs(base), axis=0))
    scale = c['contrast'] / max(1., low) if c['contrast'] < 1 else c['contrast']
    rho = base * scale
    off = 1. if c['contrast'] < 1 else (1.6 if c['contrast'] < 10 else 1 + 3 / c['contrast']) * low * scale
    rho[0] += off
    for U, P, g in c['flows']:
        e = space.build(dict(c, word=[0] * base.shape[1], soft=True, gamma=g) if 'word' in c else dict(c, gamma=g))
        E = .5 * U * U * rho
        E[0] += P / (g - 1)
        impl.put(e, np.concatenate([rho, U * rho, E], axis=2))
        a = adv.copy()
        impl.put(a, rho if U > 0 else mirror(rho))
        # the limiter of all cells, or none: an advection run with the same flags
        if c['lim'] and c['thr'] == space.LIMIT_ALL:
            a.sensors.thresholds = [-1.]
        vmax = abs(U) + np.sqrt(g * P / np.min(rho[0] - np.sum(np.abs(rho[1:]), axis=0)))
        dt = .25 * impl.FRAC.get(c['rk'], .75) * e.dx / ((2 * c['p'] + 1) * vmax)
        rec = integrate(e, c, dt)
        if len(rec) != c['steps'] + 1:
            raise Violation('the run wrote %d outputs' % len(rec))
        obs.trace()
        sc = np.max(np.abs(rho))
        sp = np.array([1., vmax, vmax**2]) * sc
        same = c['flux'] != 'rusanov' and c['thr'] != space.LIMIT_SOME['euler']
        ref = integrate(a, c, dt * abs(U)) if same else [None] * len(rec)
        for x, y in zip(rec, ref):
            v = impl.interior(e, x[3])
            obs.trans()
            obs.state(c['p'], c['rk'], c['flux'], c['enh'], c['thr'], U, P, g, x[3])
            r = v[:, :, 0]
            want = .5 * U * U * r
            want[0] += P / (g - 1)
            # far from uniform energies at small pressure differences are not seen: pressures are compared with their own size
            e1 = np.max(np.abs(v[:, :, 1] - U * r)) / sp[1]
            e2 = np.max(np.abs(v[:, :, 2] - want)) / sp[2]
            obs.note_max('not uniform', max(e1, e2))
            tol = TOL if c['flux'] != 'godunov' else 1e-10
            if not max(e1, e2) <= tol:
                raise Violation('velocity and pressure do not stay uniform', flow=[U, P, g], output=x[0], error=[float(e1), float(e2)], solution=v.tolist())
            if y is not None:
                z = impl.interior(a, y[3])
                z = z if U > 0 else mirror(z)
                d = np.max(np.abs(z[:, :, 0] - r)) / sc
                obs.note_max('other density', d)
                if not d <= tol:
                    raise Violation('the density is not the one of an advection run', flow=[U, P, g], output=x[0], error=float(d), density=r.tolist(), advection=z[:, :, 0].tolist())
        obs.outcome('%s%s %s' % (c['flux'], ' limited' if c['lim'] else '', 'supersonic' if abs(U) > np.sqrt(g * P / np.max(rho[0])) else 'subsonic'))


def vacuity(total, ncases, tier):
    if len(total.outcomes) < 9:
        return 'some kinds of flow never occurred'
