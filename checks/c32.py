"""C32 shock tubes reach the exact Riemann solution, and the regression problems their stored results"""
import itertools
import math
import os

import numpy as np

from mc import core, impl, ref
from mc.core import Violation

ID = 'C32'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of shock tubes run to their end on the real code against an exact Riemann solver'
RULE = ('every combination of Riemann problem (11 wave patterns, each also mirrored), interface flux, order and number of cells, run from the '
        'deck line to the final time with the limiter (none at order 0): error in the cell averages, refinement, states between the waves and '
        'overall balance; every combination of diaphragm position and coarse grid (balance and error); the six regression problems')
BOUNDS = {
    'quick': 'orders 0-2 on 50 cells and 100 cells (no 100 for Godunov and mirrored problems at orders above 0); 7 diaphragm positions x 7 numbers of cells from 20 to 101 at orders 0 and 1; regression problems in full',
    'thorough': 'orders 0-3, 50, 100, 200 cells, 17 diaphragm positions x 17 numbers of cells',
}
ASSUMPTIONS = ['the error bounds are a stated number of cells per wave, several times the ideal one: a slightly more diffusive but consistent scheme passes']
CHUNK = 1
PROBLEMS = dict(
    sod=((1., 0., 1.), (.125, 0., .1)), modified=((1., .75, 1.), (.125, 0., .1)), expansion=((1., -2., .4), (1., 2., .4)),
    lax=((.445, .698, 3.528), (.5, 0., .571)), strong=((5.99924, 19.5975, 460.894), (5.99242, -6.19633, 46.095)),
    contact=((1.4, 0., 1.), (1., 0., 1.)), moving=((1.4, .7, 1.), (1., .7, 1.)), blast=((1., 0., 1000.), (1., 0., .01)),
    collision=((1., 2., 1.), (1., -2., 1.)), supersonic=((1., 3., 1.), (.5, 2.8, .7)), weak=((1., 0., 1.), (.9, 0., .95)))
REGRESSIONS = ['sodtube', 'sodtube_modified', '123_problem', 'blast_wave', 'strong_shocks', 'stationary_contact']


def cases(tier):
    quick = tier == 'quick'
    for name in REGRESSIONS[::-1]:
        yield dict(kind='regression', name=name)
    for name, rev, flux in itertools.product(PROBLEMS, (False, True), impl.FLUXES):
        for p in range(3 if quick else 4):
            # too strong for the method without a positivity limiter
            if name == 'blast' and p > 1 or name == 'expansion' and p and flux != 'roe':
                continue
            ns = [50] if quick and (flux == 'godunov' or rev) and p else [50, 100] if quick else [50, 100, 200]
            yield dict(kind='tube', name=name, rev=rev, flux=flux, p=p, ns=ns, x0=0.)
    xs = (-.7, -.3, -.111, .04, .2, .37, .62) if quick else (-.82, -.7, -.6, -.5, -.4, -.3, -.2, -.111, .0123, .04, .2, .25, .37, .44, .5, .62, .75)
    for name, x0, flux in itertools.product(('sod', 'lax', 'collision', 'weak'), xs, impl.FLUXES[:2] if quick else impl.FLUXES):
        for p in (0, 1):
            for n in ((20, 33, 49, 51, 64, 99, 101) if quick else (20, 25, 31, 32, 33, 40, 49, 51, 63, 64, 65, 80, 99, 101, 127, 128, 129)):
                if n < 60 or p == 0:
                    yield dict(kind='tube', name=name, rev=False, flux=flux, p=p, ns=[n], x0=x0)


def waves(L, R):
    """Speeds of the edges of the waves, and the sum of the jumps of the conserved quantities over the waves"""
    g = 1.4
    ps, us = ref.riemann_star(L, R, g)
    sp = [us]
    states = [ref.cons(*L, g)]
    for (r, u, p), s in ((L, -1), (R, 1)):
        a = math.sqrt(g * p / r)
        if ps > p:
            sp.append(u + s * a * math.sqrt((g + 1) / (2 * g) * ps / p + (g - 1) / (2 * g)))
            rs = r * ((ps / p + (g - 1) / (g + 1)) / ((g - 1) / (g + 1) * ps / p + 1))
        else:
            sp += [u + s * a, us + s * a * (ps / p)**((g - 1) / (2 * g))]
            rs = r * (ps / p)**(1 / g)
        states.append(ref.cons(rs, us, ps, g))
    states.append(ref.cons(*R, g))
    return sp, sum(np.abs(b - a) for a, b in zip(states, states[1:]))


def tube(c, N, L, R, T):
    x0 = c['x0']
    p = c['p']
    s = impl.RecSolution('scktube %d %r %s' % (N, x0, ' '.join(map(repr, L + R))), 'euler', p, c['flux'], '', [.01, .01] if p else [])
    s.apply_bc()
    lim = impl.limiting.Limiter('adaptive_hr' if p else '', s)
    lim.limit(s)
    start = impl.interior(s)[0]
    try:
        impl.rk.integrate(s, impl.Deck('rk4', T, 2, .5), impl.Solver(s, 10**6), lim)
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    if len(s.rec) != 2 or not abs(s.rec[-1][1] - T) <= 1e-12:
        raise Violation('the run did not write its two outputs, the last one at the final time')
    return start, impl.interior(s, s.rec[-1][3])[0]


def run_tube(c, obs):
    g = 1.4
    L, R = PROBLEMS[c['name']]
    if c['rev']:
        L, R = (R[0], -R[1], R[2]), (L[0], -L[1], L[2])
    sp, jumps = waves(L, R)
    big = max(abs(v) for v in sp + [abs(w[1]) + math.sqrt(g * w[2] / w[0]) for w in (L, R)])
    T = min(.5, .8 * (1 - abs(c['x0']))) / big
    scale = jumps + 1e-3 * max(L[0], R[0]) * np.array([1., big, big * big])
    for N in c['ns']:
        start, end = tube(c, N, L, R, T)
        dx = 2. / N
        obs.ev()
        obs.state(sorted(c.items()), N)
        kw = dict(problem=[L, R], configuration=c, cells=N, final_time=T)
        # overall balance with the fluxes of the undisturbed states at the ends
        change = (end - start).sum(0) * dx + T * (ref.euler_flux(ref.cons(*R, g), g) - ref.euler_flux(ref.cons(*L, g), g))
        e = impl.err(change, 0 * change, np.array([1., big, big * big]) * max(L[0], R[0]))
        # what has reached the ends from smeared fronts
        edge = max(impl.err(end[0], start[0], scale), impl.err(end[-1], start[-1], scale))
        obs.note_max('balance, quiet ends', e if edge < 1e-9 else 0)
        if not e <= 1e-10 + 10 * edge:
            raise Violation('the totals do not change by what enters and leaves at the ends', error=e, **kw)
        xs = -1 + dx * (np.arange(N)[:, None] + (np.arange(12) + .5)[None] / 12)
        st = np.array([[ref.riemann_sample(L, R, g, (x - c['x0']) / T) for x in row] for row in xs])
        ex = ref.cons(st[..., 0], st[..., 1], st[..., 2], g).mean(1 + 1)
        d = np.abs(end - ex.T)
        cells = d.sum(0) / scale
        obs.note_max('error in cells, order %d %s %s' % (c['p'], c['flux'], c['name']), max(cells))
        # (an ideal stationary contact has no error at all with these fluxes)
        if not max(cells) <= (1e-8 if c['name'] == 'contact' and c['flux'] != 'rusanov' and c['x0'] == 0. else WIDTH[min(c['p'], 2)]):
            raise Violation('the error in the cell averages is that of waves smeared over too many cells', cells_per_wave=cells.tolist(), **kw)
        # states between the waves, far from them
        xc = xs.mean(1)
        far = np.array([min(abs(x - c['x0'] - v * T) for v in sp) for x in xc]) > FAR[min(c['p'], 2)] * dx
        inside = far & (xc > c['x0'] + min(sp) * T) & (xc < c['x0'] + max(sp) * T)
        fan = np.zeros(N, bool)
        for (r, u, p), s in ((L, -1), (R, 1)):
            a = math.sqrt(g * p / r)
            ps, us = ref.riemann_star(L, R, g)
            if ps <= p:
                ends = sorted([(u + s * a) * T, (us + s * a * (ps / p)**((g - 1) / (2 * g))) * T])
                fan |= (xc > c['x0'] + ends[0]) & (xc < c['x0'] + ends[1])
        sel = inside & ~fan
        if sel.any():
            e = impl.err(end[sel], ex.T[sel], scale)
            obs.note_max('state between the waves, order %d %s' % (c['p'], c['name']), e)
            obs.outcome('states between waves judged', int(sel.sum()))
            if not e <= .02:
                raise Violation('a state between the waves is not that of the exact solution', error=e, **kw)
    obs.outcome('tube %s order %d' % (c['name'], c['p']))


FAR = {0: 12, 1: 8, 2: 6}
# error of the cell averages (L1, in cell sizes) over the sum of the jumps; measured: 3.8, 1.9, 1.45
WIDTH = {0: 5.5, 1: 2.4, 2: 1.8}


def run_case(c, obs):
    if c['kind'] == 'tube':
        return run_tube(c, obs)
    d = os.path.join(core.REPO, 'regressions', c['name'])
    deck = impl.deckmod.Deck()
    deck.parser(os.path.join(d, 'deck.inp'))
    s = impl.RecSolution(deck.ic, deck.system, deck.order, deck.riemann, deck.enhance, deck.sensor_thresholds)
    s.apply_bc()
    lim = impl.limiting.Limiter(deck.limiting, s)
    lim.limit(s)
    try:
        impl.rk.integrate(s, deck, impl.Solver(s, 10**6), lim)
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    u = impl.interior(s, s.rec[-1][3])
    for f, name in enumerate(('rho', 'rhou', 'E')):
        gold = np.loadtxt(os.path.join(d, name + '0000000001.gold'), delimiter=',')
        e = impl.err(u[:, :, f].T, gold[:, 1:], max(1., float(np.max(np.abs(gold[:, 1])))))
        obs.ev()
        obs.state(c['name'], f)
        obs.note_max('regression ' + c['name'], e)
        if not e <= 1e-8:
            raise Violation('the regression problem does not give its stored result', problem=c['name'], field=name, error=e)
    obs.outcome('regression')
