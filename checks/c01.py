"""C01 discrete conservation"""
import itertools

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('every combination of system, order, interface flux, time integrator, limiter, enhancement x every word of cell '
        'states over the alphabet x number of cells, run through the real integrator; the total of every field is '
        'compared after every step. Plus every boundary combination at the level of the semi-discrete operator.')
BOUNDS = {
    'quick': 'orders 0-2, all 9 integrators, all fluxes, 3 limiter settings, enhancements "", icb 0, icb 0 1; words over 3 '
             'letters of length 1 and 2 (and 3 up to rotation for rk4), 2 steps; many numbers of cells from 4 to 4097 with all cells different, 1 step; 6 cells, 40 steps; 5 cells, 2050 steps; orders 4-12 with two integrators; operator: orders 0-12, words of length 1-3, all 4 boundary combinations',
    'thorough': 'orders 0-4, words over 3 letters of length 1-3, of length 4 up to rotation for rk3/rk4/low_storage_rk4, 3 steps; numbers of cells up to 4097; 150 steps; operator: orders 0-6, words of length 1-4 over 4 letters',
}
ASSUMPTIONS = ['cell states outside the alphabets, larger numbers of cells and longer runs are not explored']
CHUNK = 6
TOL = 2e-12


def cases(tier):
    quick = tier == 'quick'
    orders = range(0, 5 if quick else 7)
    for p in orders:
        for bc in itertools.product(['periodic', 'zerograd'], repeat=2):
            for half in (1, 4):
                for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'), ('euler', 'godunov')):
                    for enh in space.enhancements(min(p, 3 if system == 'euler' else p), 2):
                        if enh and p > 4:
                            continue
                        yield dict(kind='operator', p=p, bc=list(bc), half=half, system=system, flux=flux, enh=enh,
                                   n=[1, 2, 3] if quick else [1, 2, 3, 4], k=3 if quick or (system == 'euler' and enh) else 4)
    for p in range(5 if quick else 7, 13):
        for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'), ('euler', 'godunov')):
            yield dict(kind='operator', p=p, bc=['zerograd', 'periodic'], half=1, system=system, flux=flux, enh='', n=[1, 2], k=3)
            yield dict(kind='operator', p=p, bc=['periodic', 'periodic'], half=1, system=system, flux=flux, enh='', n=[2, 3], k=3)
    for c in space.high():
        yield dict(kind='run', word=[0, 1, 2], steps=2, **c)
        yield dict(kind='run', word=[1, 2], steps=2, free=True, **c)
    for n in space.SIZES + space.SIZES_HUGE + space.SIZES_VAST:
        for p in ((0, 1, 2) if n < 400 else (0, 1)) if quick else range(5):
            for system, flux in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'), ('euler', 'godunov')):
                for enh in ('', 'icb 0') if n in space.SIZES_FEW else ('',):
                    yield dict(kind='operator', p=p, bc=['periodic', 'periodic'], half=1, system=system, flux=flux, enh=enh, size=n)
                    if n in space.SIZES_FEW:
                        yield dict(kind='operator', p=p, bc=['zerograd', 'zerograd'], half=1, system=system, flux=flux, enh=enh, size=n)
    for c in space.configs(range(0, 3) if quick else range(0, 5), impl.SCHEMES, fluxes=['roe', 'rusanov'] if quick else impl.FLUXES):
        if c['p'] == 1 and c['rk'] == 'rk4' and not c['enh']:
            for n in space.SIZES:
                yield dict(kind='run', size=n, steps=1, **c)
        elif not quick or c['p'] and (c['p'] < 2 or c['rk'] == 'rk4'):
            for n in (33, 101):
                yield dict(kind='run', size=n, steps=1, **c)
        if c['p'] == 1 and c['rk'] in ('rk3', 'low_storage_rk4') and not c['enh'] and (c['thr'] == space.LIMIT_ALL or c['system'] != 'euler'):
            yield dict(kind='run', size=5, steps=2050, free=True, **c)
        if not quick or c['rk'] in ('rk3', 'rk4', 'low_storage_rk4') or c['p'] == 1 and c['flux'] != 'rusanov' and not c['enh']:
            yield dict(kind='run', size=6, steps=40 if quick else 150, **c)
    for c in space.configs(range(0, 3) if quick else range(0, 5), impl.SCHEMES):
        for n in ((1, 2, 3) if quick else (1, 2, 3, 4)):
            small = c['rk'] in ('rk3', 'rk4', 'low_storage_rk4')
            if n == 3 and quick and c['rk'] != 'rk4' or n == 4 and not small:
                continue
            ws = list(itertools.product(range(3), repeat=n)) if n < 3 or (n == 3 and not quick) else list(impl.necklaces(3, n))
            for w in ws:
                yield dict(kind='run', word=list(w), steps=2 if quick else 3, **c)


def run_case(c, obs):
    if c['kind'] == 'operator':
        for n in c['n'] if 'n' in c else [c['size']]:
            for w in itertools.product(range(c['k']), repeat=n) if 'n' in c else ['size']:
                s = space.build(dict(c, word=w))
                r = impl.residual(s)
                f = np.array(s.evaluate_faces())
                nf = s.N_F
                q = s.riemann(np.array(f[1, :-nf]), np.array(f[0, nf:]))
                got = r[0].sum(0) * s.dx
                want = q[:nf] - q[-nf:]
                scale = 1 + np.max(np.abs(q)) * n
                e = impl.err(got, want, scale)
                obs.note_max('operator_error', e)
                obs.state('op', c['p'], c['system'], c['flux'], c['enh'], c['bc'], c['half'], s.u)
                obs.trans()
                obs.trace()
                if not e <= TOL * (c['p'] + 1):
                    raise Violation('the rate of change of the total is not the inflow minus the outflow', word=w,
                                    rate=got.tolist(), inflow_minus_outflow=want.tolist())
                if tuple(c['bc']) == ('periodic', 'periodic') and not impl.err(got, 0 * got, scale) <= TOL * (c['p'] + 1):
                    raise Violation('the total changes on a periodic domain', word=w, rate=got.tolist())
        return
    s = space.build(c)
    t0 = impl.interior(s)[0].sum(0)
    scale = np.abs(impl.interior(s)[0]).sum() + 1
    rec = impl.run(s, c['rk'], c['steps'], limiter=c['lim'], free=c.get('free', False))
    obs.trace()
    for r in rec:
        a = impl.interior(s, r[3])
        obs.state(c['p'], c['rk'], c['flux'], c['enh'], c['lim'], c['thr'], r[3])
        obs.trans()
        e = impl.err(a[0].sum(0), t0, scale)
        obs.note_max('error_' + c['rk'], e)
        if not e <= TOL * (100 if c['rk'] in ('rk12', 'rk14', 'rk10') else 1):
            raise Violation('the domain total changes', output=r[0], t=r[1], total=a[0].sum(0).tolist(), initial=t0.tolist())
    changed = np.max(np.abs(rec[-1][3] - rec[0][3])) > 1e-6 * scale
    obs.outcome('%s limited=%s moved=%s' % (c['system'], bool(c['lim']), bool(changed)))


def vacuity(total, ncases, tier):
    if not any('moved=True' in k for k in total.outcomes):
        return 'no run changed its state'
