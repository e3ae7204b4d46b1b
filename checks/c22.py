"""C22 independent solutions and copies do not influence each other"""
import itertools
import os

import numpy as np

from mc import core, impl, pristine, space
from mc.core import Violation

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation sequences over two real solutions and a copy, each compared with its own operations in isolation'
RULE = ('every sequence of operations up to the bound over two live solutions and copies of them (run, limit, overwrite in place, evaluate, apply '
        'boundary conditions, copy, write and read, create a further solution); the model gives every solution the effect of its own operations '
        'only, computed in a process that never held any other solution; the last operation of every sequence is followed by observing everything, including a further run')
BOUNDS = {
    'quick': 'sequences of up to 2 operations over 24 operations for 10 pairs and of 3 operations for one pair of solutions (both systems, enhancement, sensors, all ratios of specific heats)',
    'thorough': 'sequences of up to 4 operations, 3 pairs; up to 3 operations, 10 pairs',
}
CHUNK = 2
TOL = 1e-12
# name, arguments
KINDS = {
    'adv': dict(system='advection', p=2, word=(0, 1, 2, 1), thr=[0.3], bc=['periodic', 'periodic']),
    'adv enhanced': dict(system='advection', p=1, word=(1, 2, 0), enh='icb 0', thr=[0.3], bc=['periodic', 'zerograd']),
    'euler': dict(system='euler', p=2, word=(0, 1, 2), flux='roe', thr=[0.2, 0.1], bc=['zerograd', 'periodic']),
    'euler other': dict(system='euler', p=2, word=(1, 2, 0), flux='roe', thr=[0.2, 0.1], bc=['zerograd', 'periodic']),
    'euler enhanced': dict(system='euler', p=1, word=(0, 1, 2, 1), enh='icb 0 1', flux='rusanov', thr=[0.2, 0.1], bc=['periodic', 'periodic']),
    'euler enhanced 2': dict(system='euler', p=1, word=(2, 0, 1, 1), enh='icb 0', flux='rusanov', thr=[0.2, 0.1], bc=['periodic', 'periodic']),
    'godunov': dict(system='euler', p=1, word=(0, 1, 2, 0), flux='godunov', thr=[-1., 2.], bc=['zerograd', 'zerograd']),
    'gamma 3': dict(system='euler', p=1, word=(0, 1, 2), flux='roe', thr=[0.2, 0.1], bc=['periodic', 'periodic'], half=4, gamma=3.),
    # like another one but for one parameter (or the ones nothing of the order and number of cells tells)
    'euler enhanced 3': dict(system='euler', p=1, word=(2, 0, 1, 1), enh='icb 1', flux='rusanov', thr=[0.2, 0.1], bc=['periodic', 'periodic']),
    'euler wide': dict(system='euler', p=2, word=(2, 1, 0), flux='rusanov', thr=[0.02, 0.5], bc=['periodic', 'zerograd'], half=5),
    'adv high': dict(system='advection', p=9, word=(0, 1, 2), thr=[0.3], bc=['periodic', 'periodic']),
    'euler high': dict(system='euler', p=7, word=(0, 1, 2), flux='roe', thr=[3., 3.], bc=['zerograd', 'periodic']),
}
PAIRS = [('euler', 'euler other'), ('adv', 'euler'), ('euler enhanced', 'euler enhanced 2'), ('adv enhanced', 'adv'), ('godunov', 'euler enhanced'),
         ('gamma 3', 'euler'), ('adv', 'gamma 3'), ('euler enhanced 2', 'euler enhanced 3'), ('euler', 'euler wide'), ('adv high', 'euler high')]
LOCAL = ['run', 'limit', 'overwrite', 'observe', 'bc', 'store']
OPS = [(o, x) for o in LOCAL for x in 'ABE'] + [('copy', 'A'), ('copy', 'B')] + [('create', k) for k in ('simplew 3', 'scktube 3', 'sinewave 4', 'empty')]


def gamma_of(kind):
    return KINDS[kind].get('gamma', 1.4)


def get_gamma():
    return getattr(impl.constants, 'gamma', None)


def set_gamma(g):
    if hasattr(impl.constants, 'gamma'):
        impl.constants.gamma = g


def build(kind, fresh=True):
    """As a user would: constructed here (in the deepest histories copied from one constructed before)"""
    c = KINDS[kind]
    s = (impl.build_new if fresh else impl.new)(c['system'], c['p'], len(c['word']), c.get('flux', ''), c.get('enh', ''), tuple(c['thr']), tuple(c['bc']), gamma_of(kind),
                       c.get('half', 1))
    impl.fill(s, space.cells(c['system'], c.get('enh', '') or 'soft', c['word']))
    return s


def apply(op, s, where):
    """One operation on one solution; returns what it shows"""
    if op == 'run':
        impl.run(s, 'rk3', 1, limiter='adaptive_hr')
    elif op == 'limit':
        impl.limiting.Limiter('adaptive_hr', s).limit(s)
    elif op == 'overwrite':
        # in place: anything that shares the memory would see it
        s.u[...] = s.u[:, ::-1].reshape(s.u.shape[0], -1, s.N_F)[:, :, ::-1].reshape(s.u.shape) * 1.01
        s.sensors.sensors[...] = 1
        s.t += 0.125
        s.n += 3
        s.bc_l, s.bc_r = s.bc_r, s.bc_l
        s.apply_bc()
    elif op == 'observe':
        return observe(s)
    elif op == 'bc':
        s.apply_bc()
    elif op == 'store':
        impl.solution.Solution.printer(s, 1, 0.5)
        s.loader(1)
        s.apply_bc()
    return None


def observe(s):
    s.apply_bc()
    out = [np.array(s.u), np.array(s.x, float), s.t, s.n, s.bc_l, s.bc_r, float(s.dx)]
    s.sensors.sensing(s)
    out.append(np.array(s.sensors.sensors))
    f = np.array(s.evaluate_faces())
    out += [f[0, s.N_F:], f[1, :-s.N_F], np.array(s.collocate()), float(s.max_wave_speed()), impl.residual(s)]
    return out


def stored(s):
    """What is stored in a solution, without computing anything"""
    return [impl.interior(s), np.array(s.x, float), s.t, s.n, s.bc_l, s.bc_r, float(s.dx), np.array(s.sensors.sensors), np.array(s.xc, float),
            np.array(s.sensors.thresholds, float), s.N_E, s.N_F, s.basis.p, s.icname, ' '.join(s.params), s.keywords['system']]


STORED = ['coefficients', 'grid', 'time', 'step number', 'left boundary', 'right boundary', 'cell size', 'sensor flags', 'cell centers', 'thresholds',
          'number of cells', 'number of fields', 'order', 'initial condition', 'parameters of the initial condition', 'system']


def final(s):
    """Everything a solution shows, without and with another run"""
    return observe(s) + [x for r in impl.run(s, 'low_storage_rk4', 2, limiter='adaptive_hr') for x in (r[1], r[2], r[3], r[4])]


NAMES = ['coefficients', 'grid', 'time', 'step number', 'left boundary', 'right boundary', 'cell size', 'sensor flags', 'left face values',
         'right face values', 'collocated values', 'signal speed', 'operator']


def differ(a, b, names=NAMES):
    """Name of the first difference of two observations, or None"""
    for i, (x, y) in enumerate(zip(a, b)):
        name = names[i] if i < len(names) else 'a further run'
        if isinstance(x, str) or isinstance(x, int):
            if x != y:
                return name
        elif not impl.err(x, y, 1 + np.max(np.abs(np.nan_to_num(np.asarray(y, float))), initial=0)) <= TOL:
            return name
    return None


_ISO = {}
_SERVERS = []


def alone(kind, req):
    """Runs in a process that never holds another solution than those of this kind"""
    ops, end = req
    where = core.scratch() + '/io-%d' % os.getpid()
    os.makedirs(where, exist_ok=True)
    os.chdir(where)
    set_gamma(gamma_of(kind))
    s = build(kind)
    set_gamma(gamma_of(kind))
    for o in ops:
        set_gamma(gamma_of(kind))
        apply(o, s, where)
    set_gamma(gamma_of(kind))
    return dict(final=final, observe=observe, stored=stored)[end](s)


def isolated(kind, ops, end, where):
    """The observation `end` (an operation or final) of a solution after its own operations, with nothing else around"""
    key = (kind, ops, end)
    if key not in _ISO:
        _ISO[key] = _SERVERS[0].ask(kind, (ops, end))
    set_gamma(gamma_of(kind))
    return _ISO[key]


def play(pair, seq, fix_gamma, where, obs):
    """Runs a history; returns (message, predicted gamma deviates)"""
    set_gamma(1.4)
    live = {}
    kind = dict(A=pair[0], B=pair[1])
    done = dict(A=(), B=(), E=())
    live['A'] = build(pair[0], len(seq) < 3)
    live['B'] = build(pair[1], len(seq) < 3)
    live['E'] = live['A'].copy()
    kind['E'] = pair[0]
    predicted = gamma_of(pair[1])

    def g(x):
        if fix_gamma:
            set_gamma(gamma_of(kind[x]))
        elif get_gamma() is not None and get_gamma() != predicted:
            raise Violation('an operation that creates no solution changes the ratio of specific heats from %s to %s' % (predicted, get_gamma()),
                            pair=pair, history=seq)
    for k, (op, x) in enumerate(seq):
        if op == 'create':
            n = x.split()
            line = {'simplew': 'simplew 3', 'scktube': 'scktube 3 0 1 0 1 .5 0 .5', 'sinewave': 'sinewave 4', 'empty': 'empty'}[n[0]]
            extra = impl.RecSolution(line, 'advection' if n[0] == 'sinewave' else 'euler', 1, 'roe', '', [.1, .1])
            predicted = 3 if n[0] == 'simplew' else 1.4
            extra.u += 3.
        elif op == 'copy':
            g(x)
            live['E'] = live[x].copy()
            live['E'].rec = impl.Rec()
            kind['E'], done['E'] = kind[x], done[x]
        else:
            g(x)
            try:
                r = apply(op, live[x], where)
            except Violation as v:
                return 'operation %d of the history (%s %s): %s' % (k + 1, op, x, v.msg)
            if op == 'observe':
                d = differ(r, isolated(kind[x], done[x], 'observe', where))
                if not fix_gamma:
                    set_gamma(predicted)
                if d:
                    return '%s of solution %s differ from those of the same solution in isolation (operation %d)' % (d, x, k + 1)
            done[x] = done[x] + (op,)
        if obs is not None:
            obs.trans()
    # what is stored must be right before anything is run again
    for x in 'EBA':
        g(x)
        want = isolated(kind[x], done[x], 'stored', where)
        if not fix_gamma:
            set_gamma(predicted)
        d = differ(stored(live[x]), want, STORED)
        if d:
            return 'the stored %s of solution %s differ from those of the same solution in isolation' % (d, x)
    for x in 'AEB':
        g(x)
        want = isolated(kind[x], done[x], 'final', where)
        if not fix_gamma:
            set_gamma(predicted)
        try:
            d = differ(final(live[x]), want)
        except Violation as v:
            d = 'further run (%s)' % v.msg
        if d:
            return '%s of solution %s differ from those of the same solution in isolation' % (d, x)
    return None


def cases(tier):
    if tier == 'quick':
        for i in range(len(PAIRS)):
            yield dict(pair=i, first=None, depth=1)
        for d in (2, 3):
            for i in range(len(PAIRS)):
                for first in range(len(OPS)):
                    # the pair with the most internal state is explored more deeply
                    if d == 3 and i != 2:
                        continue
                    yield dict(pair=i, first=first, depth=d)
    else:
        for d in (1, 2, 3, 4):
            for i in range(len(PAIRS)):
                for first in range(len(OPS)):
                    if d == 4 and i > 2:
                        continue
                    for second in range(len(OPS)) if d > 2 else [None]:
                        yield dict(pair=i, first=first, second=second, depth=d)


def useful(seq):
    """Sequences that end in an operation without an effect of its own are the same as shorter ones"""
    for a, b in zip(seq, seq[1:]):
        if a[0] == 'bc' and b == a or a[0] == 'observe' and b == a or a[0] == 'create' and b[0] == 'create':
            return False
    return True


def run_case(c, obs):
    where = core.scratch() + '/io'
    os.makedirs(where, exist_ok=True)
    os.chdir(where)
    if not _SERVERS:
        # before this process builds anything
        _SERVERS.append(pristine.Pristine(alone, KINDS))
    pair = PAIRS[c['pair']]
    fixed = [x for x in (c['first'], c.get('second')) if x is not None]
    for rest in itertools.product(range(len(OPS)), repeat=c['depth'] - len(fixed)):
        seq = tuple(OPS[i] for i in tuple(fixed) + rest)
        if not useful(seq):
            continue
        msg = play(pair, seq, False, where, obs)
        obs.trace()
        obs.state(pair, seq)
        if msg:
            again = play(pair, seq, True, where, None)
            if again is None:
                obs.finding('shared-gamma', (msg, c))
                obs.outcome('known shared constant')
                continue
            raise Violation(msg, pair=pair, history=[' '.join(o) for o in seq], with_constant_restored=again)
        obs.outcome('%s + %s' % pair)
