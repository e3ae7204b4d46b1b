"""C12 each time step is exactly one Runge-Kutta step of the current state"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of step-size histories of the real integrator in a closed environment, against a reference model'
RULE = ('the real integrator runs with a nonlinear time-dependent right-hand side and a limiter provided by the harness, and with scripted '
        'step sizes: every sequence of step sizes up to the bound x integrator (and unknown names) x limiter x start time x number of '
        'outputs x splitting the run at its outputs into fresh runs (also of a copy); every output is compared with a memoryless reference.  Also with the real operator, sensors and limiter, for a threshold of every class that changes which cells are limited in which stage')
BOUNDS = {
    'quick': 'step sizes from 3 values, histories of up to 3 steps, 9 integrators and 2 unrecognized names, 2 limiters and none, 2 start times, 2-4 outputs, 3 ways of splitting; 45 steps in 5 patterns of step sizes; 2560 steps; up to 101 cells; orders 0-12; up to 40 outputs; real operator and limiter: orders 1-2, 3 words, both systems and sensors, 2 steps, up to 12 thresholds each',
    'thorough': 'histories of up to 5 steps over 3 values; 130 steps in 5 patterns',
}
CHUNK = 8
TOL = 1e-11
H = (0.113, 0.047, 0.2)


class Scripted(impl.RecSolution):
    """The stable step size of step n is script[n]"""
    script = ()
    base = 0

    def max_wave_speed(self):
        k = min(self.n - self.base, len(self.script) - 1)
        return self.dx / self.script[max(k, 0)]  # cfl 1, order 0 factor 1


def rhs(t, a):
    w = np.arange(a.size).reshape(a.shape)
    return 0.7 * np.sin(a + 0.3 * w) + 0.5 * np.cos(3 * t + w) + 0.2 * np.roll(a, 1, axis=1) - 0.1 * a**2


def lim_shrink(a):
    return 0.9 * a + 0.01


def lim_swap(a):
    b = a.copy()
    b[:, 0] = np.tanh(a[:, 0]) + 0.1 * a[:, -1]
    return b


LIMS = {'': None, 'shrink': lim_shrink, 'swap': lim_swap}


class Rhs:
    def residual(self, s):
        # what a solver does first; the result of the harness function does not depend on the ghosts
        s.apply_bc()
        out = np.zeros_like(s.u)
        a = impl.interior(s)
        out[:, s.N_F:-s.N_F] = rhs(s.t, a).reshape(a.shape[0], -1)
        return out


class Lim:
    def __init__(self, f):
        self.f = f

    def limit(self, s):
        if self.f is not None:
            a = self.f(impl.interior(s))
            s.u = np.array(s.u)
            s.u[:, s.N_F:-s.N_F] = a.reshape(a.shape[0], -1)
            s.apply_bc()


UNKNOWN = ['rk2', '', 'rk', 'rk1', 'rk7', 'rk9', 'rk11', 'rk13', 'rk15', 'rk16', 'rk30', 'rk33', 'rk45', 'rk3b', 'xrk3', 'RK3', 'RK14', 'rk 3', '3', 'low_storage',
           'low_storage_rk3', 'low_storage_rk4_', 'xlow_storage_rk4', 'LOW_STORAGE_RK4', 'euler', 'ssprk3', 'rk140', 'rk85', 'rk6a']


def cases(tier):
    for n in range(1, 4 if tier == 'quick' else 6):
        for seq in itertools.product(range(3), repeat=n):
            for rk in impl.SCHEMES + UNKNOWN[:2 if n > 1 else None]:
                if n > 3 and rk not in ('rk3', 'rk4', 'low_storage_rk4', 'rk6'):
                    continue
                yield dict(seq=list(seq), rk=rk)
    steps = 45 if tier == 'quick' else 130
    for rk in impl.SCHEMES:
        for pat in ([0], [2], [0, 1], [1, 0, 2], [2] * 7 + [1] * 11 + [0] * 3):
            yield dict(seq=(pat * steps)[:steps], rk=rk, cells=2, nouts=[2, 4])
        if tier != 'quick' or rk in ('rk3', 'rk4', 'low_storage_rk4', 'rk6'):
            yield dict(seq=([2] * 7 + [1] * 11 + [0] * 3) * 60 + [1] * 1300, rk=rk, cells=1, nouts=[2])
        for spaces in ((('advection', 7), ('euler', 9)), (('advection', 12), ('euler', 7)), (('advection', 3), ('euler', 5))):
            for seq in ([0, 2], [2, 1, 0]):
                yield dict(seq=seq, rk=rk, cells=2, nouts=[3], spaces=spaces)
        for n in (7, 33, 64, 101):
            yield dict(seq=[0, 1], rk=rk, cells=n, nouts=[2])
        yield dict(seq=[0, 2] * 5, rk=rk, cells=3, nouts=[12, 40])
    for rk, system, p in itertools.product(impl.SCHEMES, ('advection', 'euler'), (1, 2)):
        for word in [(0, 1, 2, 3), (1, 0, 2), (2, 3, 1, 0, 1)] if tier == 'quick' else itertools.chain(impl.words(range(4), 3), impl.words(range(3), 4)):
            for which in (0,) if system == 'advection' else (0, 1):
                yield dict(kind='sensors', rk=rk, system=system, p=p, word=list(word), which=which, steps=2 if tier == 'quick' else 3)


def make(t0, system, p, cells=2):
    s = impl.new(system, p, cells, '', '', (), ('periodic', 'zerograd'), cls=Scripted)
    a = 0.3 + 0.2 * np.sin(1.7 * np.arange((p + 1) * cells * s.N_F)).reshape(p + 1, cells, s.N_F)
    impl.put(s, a)
    s.t = t0
    s.n = 0
    s.base = 0
    return s


def sensors_case(c, obs):
    """The real operator and limiter: every set of troubled cells that a threshold can select in the stages of the run"""
    table = impl.table(c['rk'])
    system, p, w = c['system'], c['p'], c['which']
    tol = TOL * 10 * {'rk14': 1e4, 'rk12': 1e3, 'rk10': 10}.get(c['rk'], 1)
    bc = (('periodic', 'periodic'), ('zerograd', 'periodic'))[len(c['word']) % 2]
    # data with jumps of many different sizes
    a0 = impl.interior(space.build(dict(system=system, p=p, word=c['word'], bc=bc)))
    a0 = a0 * (1 + 0.037 * np.arange(len(c['word'])))[None, :, None]
    flux = ref.flux_function(system, 'rusanov', 1.4)
    theta = 2.0
    for k in range(12):
        thr = [3.0] * (2 if system == 'euler' else 1)
        thr[w] = theta
        s = impl.new(system, p, len(c['word']), 'rusanov', '', tuple(thr), bc)
        impl.put(s, a0)
        seen, margins = [], []
        sp = impl.speed(s)
        h = impl.FRAC.get(c['rk'], 0.5) * 0.4 * s.dx / ((2 * p + 1) * sp)

        def limit(a):
            m, f = [], []
            out = ref.limit(a, bc, system, thr, 1.4, m, f)
            # the measure of the sensor in question is the margin plus its threshold
            margins.extend(m[w::2] if system == 'euler' else m)
            seen.append(tuple(f[1:-1]))
            return out

        def rhs_(t, a):
            return ref.dg_rhs(a, s.dx, system, flux, 1.4, bc)
        a = a0
        want = []
        for _ in range(c['steps']):
            a = ref.rk_step(a, h, 0., table, rhs_, limit)
            want.append(a)
        margins = [m for m in margins if m == m]
        fragile = [m for m in margins if abs(m) < 1e-9]
        if not fragile and not np.any(np.isnan(a)):
            T = c['steps'] * h
            try:
                impl.rk.integrate(s, impl.Deck(c['rk'], T, c['steps'] + 1, 0.4), impl.Solver(s), impl.limiting.Limiter('adaptive_hr', s))
            except SystemExit as e:
                raise Violation('the run stopped: %s' % e)
            if len(s.rec) != c['steps'] + 1 or s.n != c['steps']:
                raise Violation('the run took %d steps and wrote %d outputs' % (s.n, len(s.rec)))
            for o, a in zip(s.rec[1:], want):
                e = impl.err(impl.interior(s, o[3]), a, 1 + np.max(np.abs(a)))
                obs.note_max('error_sensors_' + c['rk'], e)
                obs.trans()
                if not e <= tol:
                    raise Violation('the state is not that of Runge-Kutta steps whose stages are limited where the sensors say', output=o[0], error=e, threshold=thr,
                                    flags=seen, got=impl.interior(s, o[3]).tolist(), expected=a.tolist())
            obs.trace()
            obs.state(c['rk'], system, p, c['word'], w, tuple(seen))
            obs.outcome('sensors: stages differ' if len(set(seen)) > 1 else 'sensors: all stages alike')
        # next: a threshold just below the largest measure that is not above it yet
        below = [m for m in margins if m < -1e-9]
        if not below:
            break
        theta = theta + max(below) - 1e-6


def run_case(c, obs):
    if c.get('kind') == 'sensors':
        return sensors_case(c, obs)
    hs = [H[i] for i in c['seq']]
    rkname = c['rk'] if c['rk'] in impl.SCHEMES else 'rk4'
    table = impl.table(rkname)
    tol = TOL * {'rk14': 1e4, 'rk12': 1e3, 'rk10': 10}.get(rkname, 1)
    full = len(hs) <= 2 and 'cells' not in c
    if len(hs) > 9:
        tol *= 100  # errors grow with the solution
    for limname, t0, nout, (system, p) in itertools.product(LIMS, (0.0, 0.7), (2, 3, 4) if full else c.get('nouts', (2, 3)), c.get('spaces', (('advection', 0), ('euler', 1)))):
        if not full and (system == 'euler') != (t0 == 0.7):
            continue
        T = t0 + sum(hs) - 0.0217
        touts = np.linspace(t0, T, nout)
        # reference trajectory
        s = make(t0, system, p, c.get('cells', 2))
        a, t, n = impl.interior(s), t0, 0
        want = [(a, t)]
        for tout in touts[1:]:
            while t < tout:
                h = hs[min(n, len(hs) - 1)] / (2 * p + 1)
                last = h > tout - t
                dt = tout - t if last else h
                a = ref.rk_step(a, dt, t, table, rhs, LIMS[limname])
                t = tout if last else t + dt
                n += 1
                obs.trans()
                if n > 20000:
                    raise AssertionError
            want.append((a, t))
        for split in ('one run', 'split', 'split and copied'):
            s = make(t0, system, p, c.get('cells', 2))
            s.script = tuple(hs)
            if split == 'one run':
                try:
                    impl.rk.integrate(s, impl.Deck(c['rk'], T, nout, 1.0), Rhs(), Lim(LIMS[limname]))
                except SystemExit as e:
                    raise Violation('the run stopped: %s' % e)
                got = list(s.rec)
            else:
                if nout == 2:
                    continue
                got = []
                for k in range(nout - 1):
                    s.rec.clear()
                    s.t = float(touts[k])
                    impl.rk.integrate(s, impl.Deck(c['rk'], float(touts[k + 1]), 2, 1.0), Rhs(), Lim(LIMS[limname]))
                    if len(s.rec) != 2:
                        raise Violation('a run with two outputs wrote %d' % len(s.rec))
                    got += s.rec[k and 1:]
                    if split == 'split and copied':
                        s = s.copy()
            obs.trace()
            if len(got) != nout:
                raise Violation('the run wrote %d outputs instead of %d' % (len(got), nout), split=split)
            for k, (o, (a, t)) in enumerate(zip(got, want)):
                b = impl.interior(s, o[3])
                e = impl.err(b, a, 1 + np.max(np.abs(a)))
                obs.note_max('error_' + rkname, e)
                obs.state(c['rk'], limname, t0, system, o[3])
                if abs(o[1] - t) > 1e-12 or not e <= tol:
                    raise Violation('the state is not that of Runge-Kutta steps from the previous state', output=k, split=split,
                                    limiter=limname, t0=t0, nout=nout, system=system, time=o[1], error=e, got=b.tolist(), expected=a.tolist())
                g = ref.ghosts(b, (s.bc_l, s.bc_r))
                if k and not np.array_equal(np.array(o[3]).reshape(p + 1, -1), g.reshape(p + 1, -1)):
                    raise Violation('the ghost cells of the new state do not match its boundary conditions', output=k)
            obs.outcome('%s %s %s' % (c['rk'], limname, split))
