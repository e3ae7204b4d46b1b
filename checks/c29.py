"""C29 looking at a solution does not change it"""
import itertools
import os

import numpy as np

from mc import core, impl, space
from mc.core import Violation

ID = 'C29'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of observation sequences between the time steps of real runs, against runs without observations'
RULE = ('every sequence of observations up to the bound (write output, boundary, face, quadrature values, signal speed, interface and interior '
        'fluxes, sensors, operator by the solver in use and by a new one, copies, new limiter) at the initial state and at every output of a run; '
        'coefficients, time and step number must not change, repeated results must be equal and all later steps must be those of the silent run')
BOUNDS = {
    'quick': 'sequences of up to 3 of 13 observations, 11 configurations (systems, orders 0-7, fluxes, enhancement, limiters, integrators), 3 outputs',
    'thorough': 'sequences of up to 4 of 13 observations, 22 configurations',
}
CHUNK = 2
TOL = 1e-13
CONFIGS = [
    dict(system='advection', p=2, word=(0, 1, 2, 1), rk='rk4', lim='', thr=[.3], bc=['periodic', 'periodic']),
    dict(system='advection', p=1, word=(1, 2, 3), enh='icb 0', rk='low_storage_rk4', lim='adaptive_hr', thr=[.3], bc=['periodic', 'periodic']),
    dict(system='euler', p=2, word=(0, 1, 2), flux='roe', rk='rk3', lim='adaptive_hr', thr=[.35, .1], bc=['zerograd', 'zerograd']),
    dict(system='euler', p=1, word=(0, 1, 2, 0), flux='godunov', rk='low_storage_rk4', lim='', thr=[.3, .1], bc=['zerograd', 'periodic']),
    dict(system='euler', p=1, word=(0, 1, 2), flux='rusanov', enh='icb 0 1', rk='rk4', lim='adaptive_hr', thr=[-1., -1.], bc=['periodic', 'periodic']),
    dict(system='euler', p=0, word=(0, 3, 4, 1), flux='roe', rk='rk5', lim='', thr=[.1, .1], bc=['periodic', 'zerograd']),
    dict(system='advection', p=3, word=(3, 1, 2), rk='rk6', lim='adaptive_hr', thr=[-1.], bc=['zerograd', 'zerograd']),
    dict(system='advection', p=1, word=(3, 1, 2, 0), enh='icb 0 1', rk='rk8', lim='', thr=[.3], bc=['periodic', 'zerograd']),
    # nothing at the boundaries
    dict(system='advection', p=1, word=(1, 1, 2, 3, 1), enh='icb 0', rk='rk3', lim='adaptive_hr', thr=[.3], bc=['zerograd', 'zerograd'], zero=[0]),
    dict(system='advection', p=2, word=(1, 1, 2, 3, 1), rk='low_storage_rk4', lim='', thr=[.3], bc=['zerograd', 'zerograd'], zero=[0, -1]),
    dict(system='euler', p=7, word=(1, 2, 0), flux='rusanov', rk='rk4', lim='adaptive_hr', thr=[3., 3.], bc=['zerograd', 'periodic'], soft=True),
]
MORE = [dict(c, rk='low_storage_rk4' if c['rk'] != 'low_storage_rk4' else 'rk3', word=tuple(c['word'])[::-1]) for c in CONFIGS]
OBS = ['printer', 'bc', 'faces', 'collocate', 'speed', 'riemann', 'interior flux', 'sensing', 'residual in use', 'residual new', 'copy', 'copy run',
       'new limiter']


def cases(tier):
    quick = tier == 'quick'
    cfgs = CONFIGS if quick else CONFIGS + MORE
    for d in range(1, 4 if quick else 5):
        for i in range(len(cfgs)):
            for first in range(len(OBS)):
                yield dict(cfg=i, first=first, depth=d)


class Watched(impl.RecSolution):
    """Carries out observations whenever the run writes an output"""
    hook = None

    def printer(self, nout, dt):
        super().printer(nout, dt)
        if self.hook is not None:
            self.hook(self)


def look(name, s, solver):
    """Carries out one observation; returns what it shows (interior parts only)"""
    N = s.N_F
    if name == 'printer':
        d = core.scratch() + '/io'
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        impl.solution.Solution.printer(s, 5, 0.1)
        return [np.frombuffer(open(f, 'rb').read(), np.uint8).astype(float) for f in sorted(os.listdir('.'))]
    if name == 'bc':
        s.apply_bc()
        return [np.array(s.u)]
    if name == 'speed':
        return [float(s.max_wave_speed())]
    if name == 'collocate':
        return [np.array(s.collocate())[:, N:-N]]
    if name == 'faces':
        f = np.array(s.evaluate_faces())
        return [f[1, :-N], f[0, N:]]
    if name == 'riemann':
        f = s.evaluate_faces()
        l, r = f[1, :-N], f[0, N:]
        l0, r0 = np.array(l), np.array(r)
        q = np.array(s.riemann(l, r))
        if not (np.array_equal(l0, l) and np.array_equal(r0, r)):
            raise Violation('evaluating the interface fluxes changes the face values')
        return [q]
    if name == 'interior flux':
        g = s.collocate()
        g0 = np.array(g)
        q = np.array(s.interior_flux(g))
        if not np.array_equal(g0, g):
            raise Violation('evaluating the interior fluxes changes the values at the quadrature points')
        return [q[:, N:-N]]
    if name == 'sensing':
        s.sensors.sensing(s)
        return [np.array(s.sensors.sensors)[1:-1]]
    if name == 'residual in use':
        return [np.array(solver.dg.residual(s))[:, N:-N]]
    if name == 'residual new':
        return [np.array(impl.dg.DG(s).residual(s))[:, N:-N]]
    if name == 'copy':
        c = s.copy()
        out = [np.array(c.u), c.t, c.n]
        c.u[...] = 7.
        c.sensors.sensors[...] = 1
        return out
    if name == 'copy run':
        c = s.copy()
        c.rec = impl.Rec()
        c.hook = None
        return [impl.run(c, 'rk3', 1)[-1][3]]
    c = impl.limiting.Limiter('adaptive_hr', s)
    return [np.array(x) for x in (c.L2M, c.M2L)] if hasattr(c, 'L2M') else []


def start(c):
    s = impl.new(c['system'], c['p'], len(c['word']), c.get('flux', ''), c.get('enh', ''), tuple(c['thr']), tuple(c['bc']), cls=Watched)
    impl.fill(s, space.cells(c['system'], c.get('enh', '') or c.get('soft'), c['word']))
    if c.get('zero'):
        a = impl.interior(s)
        a[:, c['zero']] = 0
        impl.put(s, a)
    return s


def run(c, hook):
    s = start(c)
    dt = 0.25 * s.dx / ((2 * s.basis.p + 1) * impl.speed(s))
    solver = impl.Solver(s, 4000)
    lim = impl.limiting.Limiter(c['lim'], s)
    lim.limit(s)
    s.hook = (lambda x: hook(x, solver)) if hook else None
    try:
        impl.rk.integrate(s, impl.Deck(c['rk'], 2 * 1.5 * dt, 3, 0.25), solver, lim)
    except SystemExit as e:
        raise Violation('the run stopped: %s' % e)
    return s, list(s.rec)


_BASE = {}


def run_case(c, obs):
    cfg = (CONFIGS + MORE)[c['cfg']]
    if c['cfg'] not in _BASE:
        _BASE[c['cfg']] = [(r[0], r[1], r[2], r[3], r[4]) for r in run(cfg, None)[1]]
    base = _BASE[c['cfg']]
    for rest in itertools.product(range(len(OBS)), repeat=c['depth'] - 1):
        seq = [OBS[i] for i in (c['first'],) + rest]

        def hook(s, solver):
            shown = {}
            sensors = None
            for name in seq:
                before = (impl.interior(s), s.t, s.n, np.array(s.u), np.array(s.sensors.sensors))
                r = look(name, s, solver)
                obs.trans()
                if not np.array_equal(before[0], impl.interior(s)) or before[1:3] != (s.t, s.n):
                    raise Violation('%s changes the solution' % name, observations=seq, configuration=cfg)
                if name not in ('bc', 'residual in use', 'residual new') and not np.array_equal(before[3], s.u):
                    raise Violation('%s changes the ghost cells' % name, observations=seq, configuration=cfg)
                if name != 'sensing' and not np.array_equal(before[4], s.sensors.sensors):
                    raise Violation('%s changes the sensor flags' % name, observations=seq, configuration=cfg)
                # after limiting the flags are those of the state before it: only the first evaluation may change them
                again = look(name, s, solver)
                for old in ([shown[name]] if name in shown and not (name == 'printer' and sensors) else []) + [again]:
                    if len(old) != len(r) or any(not impl.err(x, y, 1 + np.max(np.abs(np.asarray(y, float)))) <= TOL for x, y in zip(old, r)):
                        raise Violation('%s gives other results when repeated' % name, observations=seq, configuration=cfg)
                shown[name] = r
                sensors = sensors or name == 'sensing'
        s, rec = run(cfg, hook)
        if len(rec) != len(base):
            raise Violation('a run with observations writes %d outputs instead of %d' % (len(rec), len(base)), observations=seq, configuration=cfg)
        for k, (a, b) in enumerate(zip(rec, base)):
            if a[0] != b[0] or a[1] != b[1] or a[2] != b[2] or not impl.err(impl.interior(s, a[3]), impl.interior(s, b[3]), 1 + np.max(np.abs(b[3]))) <= TOL:
                raise Violation('a run with observations gives other results at output %d' % k, observations=seq, configuration=cfg, got=a[3].tolist(),
                                expected=b[3].tolist(), time=[a[1], b[1]], steps=[a[2], b[2]])
            obs.state(c['cfg'], seq, a[3])
        obs.trace()
        obs.outcome('%d %s' % (c['cfg'], seq[0]))
