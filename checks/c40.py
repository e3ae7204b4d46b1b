"""C40 at lowest order entropy is never destroyed"""
import itertools
import math

import numpy as np

from mc import impl, ref
from mc.core import Violation

ID = 'C40'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of words of cell states through the real operator, single steps and runs of the real code'
RULE = ('every word of cell states x flux x boundary types x ratio of specific heats: entropy balance of the domain under the real operator, lowest specific entropy '
        'around every cell after a forward Euler step, total entropy after every output of a periodic run')
BOUNDS = {
    'quick': 'all pairs of 78 states and of 20 nearly equal ones, 4 ratios of specific heats, both fluxes; words of length 3 over 12 states and 4 over 6, steps of CFL number 1 to 0.1; '
             'runs of all words of length 1-4 over 6 mild states with 9 integrators, CFL numbers 0.2 to 0.5; 4 outputs and uncut steps',
    'thorough': 'all pairs of 210 states, words of length 3 over 30 states and 4-5 over 8, runs of words up to length 6',
}
ASSUMPTIONS = ["Godunov's flux is computed to 1e-6 in pressure: its entropy balance is judged to that accuracy, its steps at half the CFL step, and data on which its iteration stops "
               'or that would open a vacuum are left out', 'Roe\'s flux is left out: its entropy correction is not complete']
CHUNK = 2
GAMMA = [1.4, 5 / 3., 3., 1.1]


def lattice(k):
    if k == 'near':
        out = []
        for r, u, p in ((1., .3, 1.), (1., -2., .5), (5., 1.18, 1.)):
            out += [(r, u, p)] + [(r * (1 + d), u + e, p * (1 + f)) for d, e, f in
                                  ((1e-2, 0, 0), (0, 1e-2, 0), (0, 0, 1e-2), (1e-4, -1e-4, 1e-4), (-.05, .05, .05), (0, .2, 0))]
        return out[:20]
    if k == 'mild':
        return [(1., 0, 1.), (2., .5, 1.), (1., -.5, 2.), (1.5, 0, .7), (1., .8, 1.3), (3., -.2, 3.)]
    if k <= 12:
        return [(1, 0, 1), (.125, 0, .1), (5., 2., .2), (.3, -1.5, 10.), (1., 1.2, 1.), (2., -3., 1.), (.05, 4., .05), (1, 0, 30.), (20, .5, 20.), (1., -.8, .4),
                (.01, 0, 1.), (10., 0, .01)][:k]
    if k <= 30:
        return list(itertools.product([.05, 1., 20.], [-3., -.4, 0., .9, 4.], [.1, 10.]))[:k]
    if k <= 78:
        return list(itertools.product([.01, 1., 20.], [-5., -1.1, 0., .5, 4.], [.01, .6, 1., 7., 100.]))[:75] + [(1., 1.18321595, 1.), (1., -1.18, 1.), (.1, 30., .01)]
    return list(itertools.product([.01, .3, 1., 2., 20., 300.], [-12., -2., -.5, 0., 1.2, 3., 9.], [.01, .5, 1., 8., 100.]))


def cases(tier):
    quick = tier == 'quick'
    for flux, g in itertools.product(('rusanov', 'godunov'), GAMMA):
        k = 78 if quick else 210
        for first in range(0, k, 6):
            yield dict(kind='pair', k=k, flux=flux, gamma=g, first=first, count=6)
        for first in range(0, 20, 10):
            yield dict(kind='pair', k='near', flux=flux, gamma=g, first=first, count=10)
        for n, k in ((1, 6), (3, 12), (4, 6)) if quick else ((1, 6), (3, 30), (4, 8), (5, 8)):
            for head in range(k) if n > 2 else (None,):
                yield dict(kind='word', n=n, k=k, flux=flux, gamma=g, head=head)
    for flux, rk, n in itertools.product(('rusanov', 'godunov'), impl.SCHEMES, range(1, 5 if quick else 7)):
        if n > (3 if quick else 4) and rk not in ('rk3', 'rk4', 'low_storage_rk4'):
            continue
        yield dict(kind='run', n=n, k=6 if n < 6 else 4, flux=flux, rk=rk)


def specific(V, g):
    return math.log(V[2]) - g * math.log(V[0])


def judge(c, states, bc, obs):
    """One word of cell states: balance and one-step maps of the real operator"""
    g, flux, n = c['gamma'], c['flux'], len(states)
    U = np.array([[ref.cons(*x, g) for x in states]])
    s = impl.new('euler', 0, n, flux, '', (), bc, g)
    impl.put(s, U)
    if flux == 'godunov':
        for L, R in zip(states[:-1], states[1:]):
            if 2 / (g - 1) * (math.sqrt(g * L[2] / L[0]) + math.sqrt(g * R[2] / R[0])) < 1.05 * (R[1] - L[1]):
                obs.outcome('left out')
                return
        if bc[0] == 'periodic' and n > 1 and 2 / (g - 1) * (math.sqrt(g * states[-1][2] / states[-1][0]) + math.sqrt(g * states[0][2] / states[0][0])) < 1.05 * (states[0][1] - states[-1][1]):
            obs.outcome('left out')
            return
    try:
        r = impl.residual(s)
    except SystemExit:
        if flux != 'godunov':
            raise Violation('the evaluation stops', states=states, gamma=g)
        obs.outcome('left out')
        return
    obs.trans()
    h = s.dx
    # entropy variables of -rho s / (gamma - 1)
    w = np.array([[(g - specific(x, g)) / (g - 1) - x[0] * x[1]**2 / (2 * x[2]), x[0] * x[1] / x[2], -x[0] / x[2]] for x in states])
    rate = float(np.sum(w * r[0]) * h)
    if bc[0] == 'zerograd':
        # what the uniform flow beyond the ends carries in and out
        q = [-x[0] * x[1] * specific(x, g) / (g - 1) for x in states]
        rate -= q[0] - q[-1]
        scale = sum(abs(v) for v in (q[0], q[-1]))
    else:
        scale = 0.
    scale += float(np.sum(np.abs(w * r[0])) * h) + 1e-3 * float(np.sum(np.abs(w) * np.abs(U[0])))
    tol = 1e-11 * scale
    if flux == 'godunov':
        a = max(abs(x[1]) + math.sqrt(g * x[2] / x[0]) for x in states)
        dw = np.max(np.abs(w - np.roll(w, 1, 0)), axis=0)
        tol += 2e-6 * n * float(np.sum(dw * [1 / min(math.sqrt(g * x[2] / x[0]) for x in states), 1., a]))
    obs.note_max('entropy destroyed, %s' % flux, rate / scale if rate > 0 else 0.)
    if not rate <= tol:
        raise Violation('the operator destroys entropy', states=states, gamma=g, flux=flux, bc=bc, rate=-rate, tolerance=tol)
    # every cell keeps at least the lowest entropy around it
    v = max(abs(x[1]) + math.sqrt(g * x[2] / x[0]) for x in states)
    for part in (1., .5, .1) if flux == 'rusanov' else (.5, .1):
        b = U + part * h / v * r
        for e in range(n):
            near = [states[e]]
            for j in (e - 1, e + 1):
                if 0 <= j < n:
                    near.append(states[j])
                elif bc[0] == 'periodic':
                    near.append(states[j % n])
            lo = min(specific(x, g) for x in near)
            x = ref.prim(b[0, e], g)
            if not (x[0] > 0 and x[2] > 0):
                raise Violation('a step makes density or pressure negative', states=states, gamma=g, flux=flux, bc=bc, part=part, cell=e)
            # rounding of the pressure, which is a difference
            t = 1e-12 * g * (1 + max([b[0, e, 2]] + [ref.cons(*y, g)[2] for y in near]) / min([x[2]] + [y[2] for y in near]))
            if flux == 'godunov':
                pm = min(y[2] for y in near)
                t += 1e-5 * (1 + v / math.sqrt(g * min(y[2] / y[0] for y in near)))**2 / pm
            d = lo - specific(x, g)
            obs.note_max('specific entropy lost, %s' % flux, max(0., d))
            if not d <= t:
                raise Violation('a cell falls below the lowest entropy around it', states=states, gamma=g, flux=flux, bc=bc, part=part, cell=e, lost=d, tolerance=t)
    obs.state(flux, g, bc, states)


def entropy(a, g, h):
    V = [ref.prim(x, g) for x in a[0]]
    if not all(x[0] > 0 and x[2] > 0 for x in V):
        raise Violation('density or pressure is negative', solution=a.tolist())
    return h * sum(x[0] * specific(x, g) for x in V) / (g - 1)


def run_case(c, obs):
    if c['kind'] == 'pair':
        st = lattice(c['k'])
        for L in st[c['first']:c['first'] + c['count']]:
            for R in st:
                for bc in ('zerograd', 'periodic'):
                    judge(c, [L, R], (bc, bc), obs)
        obs.outcome('pair %s' % c['flux'])
    elif c['kind'] == 'word':
        st = lattice(c['k'])
        for w in itertools.product(range(c['k']), repeat=c['n'] - (c['head'] is not None)):
            w = w if c['head'] is None else (c['head'],) + w
            judge(c, [st[i] for i in w], (('zerograd',) * 2, ('periodic',) * 2)[sum(w) % 2], obs)
        obs.outcome('word %s' % c['flux'])
    else:
        st = lattice('mild')
        for i, w in enumerate(itertools.product(range(c['k']), repeat=c['n'])):
            if any(w[j:] + w[:j] < w for j in range(len(w))):
                continue
            g = GAMMA[i % 4]
            if c['flux'] == 'godunov' and any(2 / (g - 1) * (math.sqrt(g * L[2] / L[0]) + math.sqrt(g * R[2] / R[0])) < 1.1 * (R[1] - L[1])
                                              for L, R in ((st[w[j - 1]], st[w[j]]) for j in range(len(w)))):
                continue
            s = impl.new('euler', 0, c['n'], c['flux'], '', (), ('periodic', 'periodic'), g)
            U = np.array([[ref.cons(*st[k], g) for k in w]])
            impl.put(s, U)
            cfl = (.5, .4, .2, .3)[i % 4]
            rec = impl.run(s, c['rk'], 4, cfl, free=i % 3 == 0)
            obs.trace()
            before = None
            for x in rec:
                S = entropy(impl.interior(s, x[3]), g, s.dx)
                if before is not None:
                    obs.trans()
                    size = s.dx * sum(abs(U[0, e, 0] * specific(st[w[e]], g)) + U[0, e, 0] for e in range(c['n'])) / (g - 1)
                    loss = (before - S) / size
                    obs.note_max('entropy lost in a run, %s %s' % (c['flux'], c['rk']), max(0., loss))
                    if not loss <= (1e-12 if c['flux'] == 'rusanov' else 1e-7):
                        raise Violation('the total entropy goes down', states=[st[k] for k in w], gamma=g, flux=c['flux'], integrator=c['rk'], cfl=cfl, time=x[1], loss=loss)
                before = S
                obs.state(c['flux'], c['rk'], g, w, x[1])
        obs.outcome('run %s' % c['flux'])
