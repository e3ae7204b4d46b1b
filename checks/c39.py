"""C39 a disturbance travels at most one cell per evaluation, and none upwind"""
import itertools
import math

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C39'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of pairs of runs of the real code that differ in one cell'
RULE = ('every configuration x disturbed cell x disturbance x step size: after one and two time steps the cells further away than one cell per '
        'evaluation of the operator and one per limiting hold the same values as without the disturbance; without limiting and enhancement '
        'advection and supersonic flows change no cell on the upwind side at all')
BOUNDS = {
    'quick': 'orders 0-3 with rk3, rk4 and low_storage_rk4, order 1 with the other 6 integrators; every position of the disturbed cell in 17-90 cells (every third beyond 40; 3 positions in 64 and 150 cells with rk3), periodic and zero-gradient ends, 2 disturbances; flows at rest and close to sonic with rk3; limiting off, everywhere and in flagged cells; all fluxes, supersonic in both directions; one evaluation and one limiting with 13 disturbances by factors up to 1e9 in 7-101 cells',
    'thorough': 'orders 0-5, all integrators, 4 disturbances, up to 150 cells',
}
CHUNK = 2
TOL = 1e-12
STAGES = {}


def stages(rk):
    if rk not in STAGES:
        STAGES[rk] = 5 if rk == 'low_storage_rk4' else len(impl.table(rk)[0])
    return STAGES[rk]


def cases(tier):
    quick = tier == 'quick'
    for c in space.configs(range(0, 4) if quick else range(0, 6), impl.SCHEMES, limiters=('', 'all', 'some')):
        if quick and c['rk'] not in ('rk3', 'rk4', 'low_storage_rk4') and c['p'] != 1:
            continue
        if c['rk'] in ('rk10', 'rk12', 'rk14') and c['lim']:
            continue
        if quick and c['enh'] and c['rk'] != 'rk4':
            continue
        reach = stages(c['rk']) * (2 if c['lim'] else 1)
        n = 2 * reach + 5
        for d in range(1 if c['enh'] else 2) if quick else range(4):
            for bc in (['periodic', 'periodic'], ['zerograd', 'zerograd']):
                yield dict(c, kind='any', cells=n, bc=bc, disturb=d, reach=reach)
                if c['rk'] == 'rk3' and d == 0 and (c['p'] in (1, 2) or not quick):
                    for m in (64, 150) if quick else (64, 100, 150, 257, 400):
                        yield dict(c, kind='any', cells=m, bc=bc, disturb=d, reach=reach, at=[0, m // 3, m - 2])
                if c['system'] == 'euler' and d == 0 and c['p'] < 2 and c['rk'] == 'rk3' and (bc[0] == 'periodic' or not quick):
                    # flows at rest, or close to sonic, up to small differences
                    for m, flow in itertools.product((n, 150), (0., 1., -1.)):
                        yield dict(c, kind='any', cells=m, bc=bc, disturb=d, reach=reach, at=[0, m // 3, m - 2], flow=flow)
        if not c['lim'] and not c['enh'] and (c['system'] == 'advection' or c['flux'] != 'rusanov'):
            for d in range(2):
                for turn in (False, True)[:1 if c['system'] == 'advection' else 2]:
                    yield dict(c, kind='upwind', cells=min(n, 40), bc=['zerograd', 'zerograd'] if d else ['periodic', 'periodic'], disturb=d, reach=reach, turn=turn)
    # one evaluation and one limiting, with very large disturbances
    for p in range(0, 4) if quick else range(0, 6):
        for enh in space.enhancements(p, 1 if quick else 2):
            for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'), ('euler', 'godunov')):
                for n in (7, 24, 101) if quick else (7, 24, 64, 101, 130, 257):
                    yield dict(kind='extreme', p=p, enh=enh, system=system, flux=flux, cells=n)


EXTREME = [(1., 1., 1e3), (1., 1., 1e6), (1., 1., 1e9), (1., 1., 1e-3), (1e3, 1., 1.), (1e6, 1., 1.), (1e-3, 1., 1.), (1e-6, 1., 1.), (1., 30., 1.), (1., -1e3, 1.),
           (1e6, 1., 1e6), (1e-6, 1., 1e-6), (1e-3, -50., 1e3)]


def extreme(c, obs):
    n, p, system = c['cells'], c['p'], c['system']
    for bc, thr in ((('periodic', 'periodic'), space.LIMIT_SOME[system]), (('zerograd', 'zerograd'), space.LIMIT_ALL[:1 if system == 'advection' else 2])):
        s = space.build(dict(c, size=n, bc=bc, thr=thr))
        u = impl.interior(s)
        scale = np.max(np.abs(u), axis=(0, 1))

        def evaluate(a):
            impl.put(s, a)
            r = impl.residual(s) * s.dx
            impl.put(s, a)
            impl.limiting.Limiter('adaptive_hr', s).limit(s)
            return r, impl.interior(s), [int(x) for x in s.sensors.sensors[1:-1]]
        base = evaluate(u)
        for x, at in itertools.product(EXTREME, (0, 1, n // 3, n - 1)):
            v = u.copy()
            if system == 'advection':
                v[:, at] = v[:, at] * x[2] * x[0] + x[1]
            else:
                v[:, at] = 0
                v[0, at] = impl.conserved(x[0], x[1], x[2])
            try:
                got = evaluate(v)
            except SystemExit:
                # no solution of the Riemann problem at hand: C09 decides whether that is right
                obs.outcome('no answer')
                continue
            d = np.abs(np.arange(n) - at)
            if bc[0] == 'periodic':
                d = np.minimum(d, n - d)
            obs.ev()
            obs.trans()
            obs.state(c, bc, x, at)
            for what, k, reach in (('operator', 0, 1), ('limiter', 1, 2)):
                dif = np.where(d > reach, np.max(np.abs(got[k] - base[k]) / scale, axis=(0, 2)), 0)
                if not np.max(dif) <= TOL:
                    w = int(np.argmax(dif))
                    raise Violation('a change of cell %d changes the %s in cell %d' % (at, what, w), change=float(dif[w]), cells=n, state=x, bc=bc)
            if any(f != g for f, g, e in zip(got[2], base[2], d) if e > 1):
                raise Violation('a change of cell %d changes flags further away' % at, flags=got[2], before=base[2], cells=n, state=x, bc=bc)
    obs.outcome('extreme %s %s' % (system, c['flux']))


def step(s, c, dt, nsteps, seen):
    s.rec.clear()
    try:
        impl.rk.integrate(s, impl.Deck(c['rk'], nsteps * dt, nsteps + 1, 1e9), impl.Solver(s, 10**5), impl.limiting.Limiter(c['lim'], s))
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    return [impl.interior(s, r[3]) for r in s.rec]


def n_cells(u):
    return u.shape[1]


def data(c):
    s = space.build(dict(c, size=c['cells']))
    u = impl.interior(s)
    if 'flow' in c:
        e = 1e-4 * np.sin(1. + 1.7 * np.arange(3 * n_cells(u))).reshape(-1, 3)
        a = math.sqrt(1.4)
        u = np.zeros(u.shape)
        for i, x in enumerate(e):
            u[0, i] = impl.conserved(1 + x[0], c['flow'] * a + x[1], 1 + x[2])
        if c['p']:
            u[1] = 1e-5 * np.cos(2. + 2.3 * np.arange(3 * n_cells(u))).reshape(-1, 3)
    if c['kind'] == 'upwind' and c['system'] == 'euler':
        # a supersonic flow: add a large velocity to the soft states
        V = 6. * (-1 if c['turn'] else 1)
        r, m, E = u[:, :, 0].copy(), u[:, :, 1].copy(), u[:, :, 2].copy()
        u[:, :, 1] = m + V * r
        u[:, :, 2] = E + V * m + .5 * V * V * r
    return s, u


def disturbed(u, e, d, system):
    v = u.copy()
    f = (1.02, 1.15, .9, 1.3)[d]
    v[:, e] *= f
    if system == 'advection' and d:
        v[0, e] += 3.
    if d % 2 == 0:
        v[1:, e] *= -1
    return v


def run_case(c, obs):
    if c['kind'] == 'extreme':
        return extreme(c, obs)
    s, u = data(c)
    n, reach = c['cells'], c['reach']
    dt = .1 * impl.FRAC.get(c['rk'], .75) * s.dx / ((2 * c['p'] + 1) * (1 if c['system'] == 'advection' else 9. if c['kind'] == 'upwind' else 3.))
    nsteps = 1 if c['kind'] == 'any' else 2
    impl.put(s, u)
    base = step(s.copy(), c, dt, nsteps, obs)
    scale = np.max(np.abs(u), axis=(0, 1))
    changed = 0
    for e in c['at'] if 'at' in c else range(n) if n <= 40 else sorted(set(list(range(0, n, 3)) + [1, n - 1, n // 2])):
        impl.put(s, disturbed(u, e, c['disturb'], c['system']))
        if 'flow' in c:
            v = u.copy()
            v[0, e] *= np.array([1.1, .9, 1.3])
            impl.put(s, v)
        got = step(s.copy(), c, dt, nsteps, obs)
        obs.trace()
        # distance of every cell from the disturbed one
        j = np.arange(n)
        right, left = (j - e), (e - j)
        per = c['bc'][0] == 'periodic'
        if per:
            right, left = right % n, left % n
        for k, (a, b) in enumerate(zip(base, got)):
            obs.trans()
            obs.state(c['p'], c['rk'], c['flux'], c['enh'], c['thr'], c['kind'], c['bc'], c['disturb'], e, k)
            if c['kind'] == 'any':
                far = np.minimum(np.where(right < 0, n, right), np.where(left < 0, n, left)) > reach * k
            else:
                down = left if c.get('turn') else right
                # downwind cells may change as far as the stages carry it; all others may not
                far = (down < 0) | (down > reach * k) if not per else down > reach * k
            dif = np.max(np.abs(b - a) / scale, axis=(0, 2))
            changed += int(np.sum(dif > 1e-9))
            if np.any(far):
                m = float(np.max(np.where(far, dif, 0)))
                obs.note_max('change far away' if c['kind'] == 'any' else 'change upwind', m)
                if not m <= TOL:
                    w = int(np.argmax(np.where(far, dif, 0)))
                    raise Violation('a change of cell %d changes cell %d after %d steps' % (e, w, k), change=m, reach=reach * k, cells=n)
    if not changed:
        raise AssertionError('no disturbance')
    obs.outcome('%s %s %s%s' % (c['kind'], c['system'], c['flux'], ' limited' if c['lim'] else ''))
