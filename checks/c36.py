"""C36 results do not depend on the units"""
import itertools

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C36'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of runs of the real code in every choice of units of the bounds, compared state by state with the run in the first units'
RULE = ('every configuration x every word of cell states x every choice of units of density, velocity and length: all stored states, times and flags of the '
        'run in the other units are those of the first run with the units converted')
BOUNDS = {
    'quick': 'orders 0-3 with rk4, order 1 with the other 8 integrators; words of length 1-3 over 3-4 letters and 7 cells, 2 steps and 3 uncut steps; 8 choices of units '
             '(powers of two from 2^-120 to 2^100, domains of half length 1, 4 and 5) and, for advection, a change of sign; Godunov: 4 choices with larger pressures',
    'thorough': 'orders 0-5, all integrators, words of length up to 4, 16 choices of units',
}
ASSUMPTIONS = ['Godunov\'s pressure iteration stops at an absolute change of 1e-6, so its results are compared to 1e-6 and with larger units only',
               'the sensor of advection and the smallest admitted step (1e-14) have units']
CHUNK = 4
TOL = 1e-12
# powers of two for density, velocity; half length of the domain
UNITS = [(0, 0, 4), (0, 0, 5), (10, 0, 1), (-100, 0, 1), (0, 8, 1), (0, -60, 4), (-12, 30, 1), (60, -14, 5)]
MORE = [(1, 1, 4), (40, 3, 1), (-40, -3, 4), (7, -20, 1), (-7, 20, 5), (3, 30, 1), (100, 0, 1), (-100, 0, 4)]
GODUNOV = [(0, 0, 4), (0, 0, 5), (3, 1, 1), (1, 4, 4)]


def units(c, tier):
    if c['system'] != 'euler':
        return [(k, 0, h) for k, h in ((0, 4), (0, 5), (12, 1), (-120, 4), (100, 1))]
    if c['flux'] == 'godunov':
        return GODUNOV
    if c['rk'] in ('rk3', 'rk4', 'low_storage_rk4'):
        return UNITS[:6] + [(-12, 37, 1)] + UNITS[7:] + (MORE if tier != 'quick' else [])
    return UNITS + (MORE if tier != 'quick' else [])


def cases(tier):
    quick = tier == 'quick'
    for c in space.configs(range(0, 4) if quick else range(0, 6), impl.SCHEMES, limiters=('', 'all', 'some'), level=1 if quick else 2):
        if quick and c['rk'] != 'rk4' and (c['p'] != 1 or c['enh']):
            continue
        if c['p'] > 3 and c['rk'] not in ('rk4', 'low_storage_rk4'):
            continue
        us = units(c, tier)
        for n in (1, 2, 3) if quick else (1, 2, 3, 4):
            if n >= 3 and (c['rk'] != 'rk4' or c['enh']) or n == 4 and c['flux'] == 'godunov':
                continue
            ws = list(itertools.product(range(3 if n > 1 else 4), repeat=n)) if not (n == 1 and (c['enh'] or c['p'] == 0) and quick) else [(1,)]
            ws = [w for w in ws if n == 1 or len(set(w)) > 1]
            for i, w in enumerate(ws):
                bc = (['periodic', 'periodic'], ['zerograd', 'zerograd'], ['periodic', 'zerograd'])[i % 3]
                # every word in two of the units, every pair of neighbors in all of them
                k = range(len(us)) if n < 3 and c['rk'] == 'rk4' else [i % len(us), (i // 3 + 3) % len(us)]
                yield dict(c, word=list(w), bc=bc, units=[list(us[j]) for j in sorted(set(k))], steps=2, free=bool(i % 2 and c['system'] == 'euler'))
        if c['rk'] == 'rk4':
            yield dict(c, size=7, bc=['periodic', 'periodic'], units=[list(u) for u in us], steps=3, free=False)
            yield dict(c, size=7, bc=['zerograd', 'zerograd'], units=[list(u) for u in us], steps=3, free=c['system'] == 'euler')

    for c in space.high(limiters=('', 'all', 'some')):
        us = units(c, tier)
        for w in ((0, 1, 2), (1, 2)):
            yield dict(c, word=list(w), bc=['periodic', 'zerograd'], units=[list(u) for u in us[c['p'] % 2::2]], steps=2, free=False)


def run(c, factors, half):
    s = space.build(dict(c, half=half))
    impl.put(s, impl.interior(s) * np.array(factors))
    cfl = 0.4
    rec = impl.run(s, c['rk'], c['steps'], cfl, limiter=c['lim'], free=c['free'])
    return s, rec


def compare(c, base, s, rec, factors, tf, tol, obs, what):
    s0, rec0 = base
    if len(rec) != len(rec0):
        raise Violation('the run in other units (%s) writes %d outputs instead of %d' % (what, len(rec), len(rec0)))
    for a, b in zip(rec0, rec):
        obs.trans()
        obs.state(c, what, b[3])
        x, y = impl.interior(s0, a[3]), impl.interior(s, b[3]) / np.array(factors)
        if b[2] != a[2] or not abs(b[1] - a[1] * tf) <= 1e-12 * abs(b[1]):
            raise Violation('the run in other units (%s) takes other steps' % what, output=a[0], times=[a[1], b[1] / tf], steps=[a[2], b[2]])
        if a[4] is not None and a[2] > 0 and tol < 1e-7 and not np.array_equal(a[4] != 0, b[4] != 0):
            raise Violation('the run in other units (%s) flags other cells' % what, output=a[0], flags=a[4].tolist(), other=b[4].tolist())
        e = impl.err(y, x, 1 + np.max(np.abs(x)))
        obs.note_max('difference' if tol < 1e-7 else 'difference_godunov', e)
        if not e <= tol:
            raise Violation('the result depends on the units (%s)' % what, output=a[0], error=e, result=x.tolist(), other=y.tolist())


def run_case(c, obs):
    base = run(c, [1.], 1)
    obs.trace()
    for r, v, half in c['units']:
        if c['system'] == 'euler':
            f = [2.**r, 2.**(r + v), 2.**(r + 2 * v)]
        else:
            if c['thr'] == space.LIMIT_SOME['advection'] and r:
                continue
            f = [2.**r]
        tol = 2e-6 if c['flux'] == 'godunov' and (r or v) else TOL
        s, rec = run(c, f, half)
        obs.trace()
        compare(c, base, s, rec, f, half / 2.**v, tol, obs, 'density 2^%d, velocity 2^%d, half length %d' % (r, v, half))
    if c['system'] != 'euler':
        s, rec = run(c, [-1.], 1)
        obs.trace()
        compare(c, base, s, rec, [-1.], 1., TOL, obs, 'sign')
    obs.outcome('%s %s%s' % (c['system'], c['flux'], ' limited' if c['lim'] else ''))
