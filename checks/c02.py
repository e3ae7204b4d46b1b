"""C02 a uniform flow stays uniform"""
import itertools

import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('every combination of system, order, interface flux, integrator, limiter, enhancement, pair of boundary types and '
        'number of cells x every constant state of the alphabet; every recorded state of the run must be the initial one.  And one evaluation of '
        'the real operator for a larger grid of states, with velocities at, and one to three rounding errors beside, plus and minus the sound '
        'speed and zero')
BOUNDS = {
    'quick': 'orders 0-3 (4-12 with two integrators), 9 integrators, 3 fluxes, 3 limiter settings, enhancements "", icb 0, icb 0 1; 1-3 cells; '
             '4 boundary pairs (for rk4; periodic and zerograd for the others); 7 Euler and 4 advection states, ratios of specific heats 1.4 and 3; 3 steps; operator: 6 ratios of specific heats x 9 densities and pressures x 29 velocities, orders 0-3, and many numbers of cells from 4 to 4097; 40 steps on 7 cells, 2 steps on 37 and 101 cells',
    'thorough': 'orders 0-5, all boundary pairs for all integrators, 1-4 cells, 5 steps; 150 steps on 7 cells',
}
ASSUMPTIONS = ['constant states outside the alphabet are not explored']
CHUNK = 4
GAMMAS = (1.4, 1.5, 5 / 3., 3., 1.1, 2.2)


def near(v):
    """v and the floating-point numbers next to it"""
    out = [v]
    for d in (-np.inf, np.inf):
        x = v
        for _ in range(3):
            x = float(np.nextafter(x, d))
            out.append(x)
    return out


def grid(g):
    for p, k in itertools.product((1.0, 0.3, 40.), (1.0, 0.7, 3.)):
        rho = g * p * k
        a = np.sqrt(g * p / rho)
        for u in near(float(a)) + near(-float(a)) + [0.0, -0.0, 1e-17, -1e-300] + [float(a) * f for f in (-4., -1.7, -.6, -.2, .2, .6, 1.7, 4.)] + [a / 2, -a / 2, 25. * a]:
            yield rho, float(u), p
TOL = 1e-11
STATES = [(1.0, 0.0, 1.0), (1.0, 0.3, 1.0), (0.7, -0.8, 0.9), (1.0, 2.5, 1.0), (2.0, -3.0, 0.5), (1e-3, 1.0, 1e-2), (50., 0., 1e3)]
VALUES = [0.0, 1.0, -2.5, 1e-3]


def cases(tier):
    quick = tier == 'quick'
    for p, g in itertools.product(range(4) if quick else range(6), GAMMAS):
        for flux, enh in itertools.product(impl.FLUXES, space.enhancements(p, 1 if quick else 2)):
            yield dict(kind='operator', p=p, gamma=g, flux=flux, enh=enh)
    for n in space.SIZES + space.SIZES_HUGE + space.SIZES_VAST:
        for flux in impl.FLUXES:
            yield dict(kind='sizes', size=n, flux=flux, orders=[0, 1, 3] if quick else list(range(7)))
    for c in space.configs(range(0, 3) if quick else range(0, 6), impl.SCHEMES):
        bc = ['zerograd', 'periodic'] if c['p'] % 2 else ['periodic', 'zerograd']
        if not quick or c['rk'] in ('rk3', 'rk4', 'low_storage_rk4') and c['flux'] != 'rusanov':
            yield dict(c, bc=bc, ns=[7], steps=40 if quick else 150, full=False)
            yield dict(c, bc=bc[::-1], ns=[37, 101], steps=2, full=False)
    for c in space.high():
        yield dict(c, bc=['zerograd', 'periodic'] if c['p'] % 2 else ['periodic', 'periodic'], ns=[1, 3], steps=2, full=False)
    for c in space.configs([1], ['rk3', 'low_storage_rk4'], limiters=('', 'some')):
        if not c['enh']:
            yield dict(c, bc=['periodic', 'periodic'], ns=[2], steps=2050, full=False)
    for c in space.configs(range(0, 4) if quick else range(0, 6), impl.SCHEMES):
        bcs = list(itertools.product(['periodic', 'zerograd'], repeat=2))
        if quick and c['rk'] != 'rk4':
            bcs = [bcs[0], bcs[3]]
        if quick and c['p'] > 2 and c['rk'] not in ('rk4', 'low_storage_rk4', 'rk3'):
            continue
        for bc in bcs:
            ns = [1, 2, 3] if c['rk'] == 'rk4' else [1, 3]
            yield dict(c, bc=list(bc), ns=ns if quick else [1, 2, 3, 4], steps=3 if quick else 5, full=not quick or c['rk'] == 'rk4')


def operator(c, obs):
    g = c['gamma']
    for n, bc in ((1, ('zerograd', 'zerograd')), (2, ('periodic', 'periodic'))):
        s = impl.new('euler', c['p'], n, c['flux'], c['enh'], (), bc, g)
        for st in grid(g):
            impl.fill(s, [[[v] for v in impl.conserved(*st, gamma=g)]] * n)
            v = abs(st[1]) + np.sqrt(g * st[2] / st[0])
            # what a step at CFL number 1 would add
            e = impl.err(impl.residual(s) * s.dx / v, 0 * impl.interior(s), np.array([st[0], st[0] * v, st[0] * v * v]))
            obs.ev()
            obs.note_max('operator', e)
            obs.state(c, n, st)
            if not e <= TOL * (c['p'] + 1)**2:
                raise Violation('the operator does not vanish for a uniform flow', state=st, cells=n, gamma=g, error=e, configuration=c)
    obs.outcome('operator')


def sizes(c, obs):
    for p in c['orders']:
        for enh, bc in itertools.product(('', 'icb 0') if p < 3 else ('',), (('periodic', 'periodic'), ('zerograd', 'zerograd'))):
            for st in STATES[1:4] if c['size'] < 300 else STATES[1:2]:
                s = impl.new('euler', p, c['size'], c['flux'], enh, (), bc)
                impl.fill(s, [[[v] for v in impl.conserved(*st)]] * c['size'])
                v = abs(st[1]) + np.sqrt(1.4 * st[2] / st[0])
                e = impl.err(impl.residual(s) * s.dx / v, 0 * impl.interior(s), np.array([st[0], st[0] * v, st[0] * v * v]))
                obs.ev()
                obs.note_max('operator_sizes', e)
                obs.state(c, p, enh, bc, st)
                if not e <= TOL * (p + 1)**2:
                    raise Violation('the operator does not vanish for a uniform flow', state=st, cells=c['size'], order=p, error=e, bc=bc, enh=enh)
    obs.outcome('sizes')


def run_case(c, obs):
    if c.get('kind') == 'sizes':
        return sizes(c, obs)
    if c.get('kind') == 'operator':
        return operator(c, obs)
    adv = c['system'] != 'euler'
    for n in c['ns']:
        for i, st in enumerate(VALUES if adv else STATES):
            for g in ((1.4,) if adv or not c['full'] else (1.4, 3.0)):
                if not c['full'] and i in (1, 2):
                    continue
                s = impl.new(c['system'], c['p'], n, c['flux'], c['enh'], tuple(c['thr']), tuple(c['bc']), g)
                cell = [[st]] if adv else [[v] for v in impl.conserved(*st, gamma=g)]
                impl.fill(s, [cell] * n)
                u0 = np.array(s.u)
                scale = np.array([max(abs(v[0]), 1e-300) for v in cell])
                if not adv:  # momentum scale: density times fastest signal
                    v = abs(st[1]) + np.sqrt(g * st[2] / st[0])
                    scale = np.array([st[0], st[0] * v, st[0] * v * v])
                else:
                    scale = np.maximum(scale, 1e-3)
                for r in impl.run(s, c['rk'], c['steps'], limiter=c['lim'], cfl=0.5):
                    e = impl.err(impl.interior(s, r[3]), impl.interior(s, u0), scale)
                    obs.trans()
                    obs.note_max('error_' + c['rk'], e)
                    if not e <= TOL * (c['p'] + 1)**2:
                        raise Violation('a uniform flow does not stay uniform', output=r[0], error=e, state=st, cells=n, gamma=g,
                                        result=impl.interior(s, r[3]).tolist())
                obs.trace()
                obs.state(c, n, st, g)
                obs.outcome('%s %s' % (c['system'], 'limited' if c['lim'] else 'unlimited'))
