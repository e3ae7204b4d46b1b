"""C20 sensors flag exactly the cells next to detected discontinuities"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of words of cell averages and thresholds, and of evaluation histories, on the real sensors against a reference'
RULE = ('every word of cell averages x thresholds x boundary pair x order x ratio of specific heats is evaluated by the real sensors (starting from '
        'stale flags) and compared with a reference computed from the definition (decisions within 1e-9 of a threshold are skipped, except exactly '
        'representable ones for advection); histories: every sequence of solutions evaluated by one sensor object')
BOUNDS = {
    'quick': 'advection: words of length 1-5 over 5 values, 8 thresholds; Euler: all pairs over 27 states, words of length 3 over 9 and 4-5 over 4 states, 9 threshold pairs, gamma 1.4, 5/3, 3 (1.1 and 2.2 for pairs); histories of length 4 over 3 solutions; many numbers of cells from 4 to 2049 with one jump at every position (above 66: 8 positions)',
    'thorough': 'advection: words up to length 6 over 6 values; Euler: all pairs over 75 states, words of length 3 over 15, 4-6 over 5 states',
}
CHUNK = 8
AVALS = [0., 1., -.4, 3., .9, -2.]
ATHR = [-1., 0., .1, .375, .45, .49, .5, 2.]
ETHR = [[-1., -1.], [.01, .05], [.35, .1], [.1, .35], [2., .05], [.05, 2.], [2., -1.], [-1., .3], [.48, .48]]


def estates(k):
    if k == 27:
        return list(itertools.product([.5, 1., 2.], [-1., 0., 1.5], [.4, 1., 2.5]))
    if k == 75:
        return list(itertools.product([.125, .5, 1., 2., 6.], [-1., 0., 1.5], [.1, .4, 1., 2.5, 10.]))
    return [(1., 0., 1.), (.5, 0., 1.), (1., 0., .2), (2., .8, 3.), (1.1, 0.2, 1.1), (1., 1., 1.), (1., -1., 1.), (.3, -.5, .1), (4., 2., 12.),
            (.9, 0., .95), (1., .5, 2.), (1.6, .1, 1.9), (.125, 0., .1), (3., 3., 5.), (1., -2., .6)][:k]


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 6 if quick else 7):
        for head in itertools.product(range(5 if quick else 6), repeat=max(0, n - 4)):
            yield dict(system='advection', N=n, k=5 if quick else 6, head=list(head))
    plan = [(1, 9), (2, 27), (3, 9), (4, 4), (5, 4)] if quick else [(1, 15), (2, 75), (3, 15), (4, 5), (5, 5), (6, 5)]
    for n, k in plan:
        for head in itertools.product(range(k), repeat=max(1, n - 3)) if n > 1 else [()]:
            for g in (1.4, 5 / 3., 3.) + ((1.1, 2.2) if n <= 2 else ()):
                yield dict(system='euler', N=n, k=k, head=list(head), gamma=g)
    for system in ('advection', 'euler'):
        for first in range(3):
            yield dict(system=system, kind='history', first=first, depth=4)
        yield dict(system=system, kind='uniform')
        yield dict(system=system, kind='long')
        for n in space.SIZES + (space.SIZES_HUGE[:2] + [1024, 2049] if quick else space.SIZES_HUGE + space.SIZES_VAST):
            yield dict(system=system, kind='jump', N=n)


def make(system, p, avg, thr, bc, g):
    """avg[cell][field]; higher modes must not matter"""
    n = len(avg)
    s = impl.new(system, p, n, '', '', tuple(thr), bc, g)
    a = np.zeros((p + 1, n, s.N_F))
    for m in range(1, p + 1):
        a[m] = 5.0 * (-1)**m + np.arange(n * s.N_F).reshape(n, s.N_F)
    a[0] = avg
    impl.put(s, a)
    s.sensors.sensors[:] = 1 + np.arange(n + 2) % 2  # stale flags
    return s


def check(s, thr, g, obs, exact=False, **kw):
    before = np.array(s.u)
    s.sensors.sensing(s)
    obs.trans()
    if not np.array_equal(before, s.u):
        raise Violation('evaluating the sensors changes the solution', **kw)
    got = [int(x) for x in s.sensors.sensors]
    a = impl.interior(s)
    if len(got) != a.shape[1] + 2:
        raise Violation('there are %d flags for %d cells and two ghost cells' % (len(got), a.shape[1]))
    mg = []
    want = ref.sensors(ref.ghosts(a, (s.bc_l, s.bc_r))[0], s.keywords['system'], thr, g, mg)
    if not exact and min(abs(m) for m in mg) < 1e-9:
        obs.outcome('knife-edge, skipped')
        return
    if got[1:-1] != want[1:-1]:
        raise Violation('the flags are %s instead of %s' % (got[1:-1], want[1:-1]), averages=a[0].tolist(), thresholds=thr, gamma=g, **kw)
    obs.outcome('flags ' + ''.join(map(str, got[1:-1])) if len(got) < 6 else 'long')


def run_case(c, obs):
    system = c['system']
    bcs = list(itertools.product(['periodic', 'zerograd'], repeat=2))
    if c.get('kind') == 'history':
        if system == 'advection':
            data, thr = [[[0.], [1.], [1.], [1.]], [[0.], [0.], [0.], [2.]], [[1.], [1.], [1.], [1.]]], [.3]
        else:
            st = estates(15)
            data, thr = [[ref.cons(*st[i], 1.4) for i in w] for w in ((0, 1, 1, 1), (3, 0, 0, 0), (0, 0, 0, 0))], [.1, .1]
        for seq in itertools.product(range(3), repeat=c['depth'] - 1):
            s = make(system, 1, data[c['first']], thr, ('zerograd', 'zerograd'), 1.4)
            t = make(system, 1, data[(c['first'] + 1) % 3], thr, ('periodic', 'periodic'), 1.4)
            check(s, thr, 1.4, obs, exact=True, history=seq)
            for i in seq:
                a = impl.interior(s)
                a[0] = data[i]
                impl.put(s, a)
                kept = np.array(t.sensors.sensors)
                check(s, thr, 1.4, obs, exact=True, history=seq)
                first = np.array(s.sensors.sensors)
                if not np.array_equal(kept, t.sensors.sensors):
                    raise Violation('evaluating the sensors of a solution changes the flags of another one')
                check(s, thr, 1.4, obs, exact=True, history=seq)
                if not np.array_equal(first, s.sensors.sensors):
                    raise Violation('evaluating the sensors twice gives other flags')
                # what the limiter uses
                if i == 1:
                    b = s.copy()
                    impl.limiting.Limiter('adaptive_hr', b).limit(b)
                    if not np.array_equal(np.array(b.sensors.sensors)[1:-1], first[1:-1]):
                        raise Violation('the limiter evaluates other flags', history=seq)
            obs.trace()
            obs.state('history', system, c['first'], seq)
    elif c.get('kind') == 'uniform':
        # no discontinuity at all: nothing exceeds a threshold of zero
        st = AVALS if system == 'advection' else estates(75)
        for x, n, bc, g in itertools.product(st, (1, 2, 3, 6), bcs, (1.4, 3.) if system == 'euler' else (1.4,)):
            avg = [[x]] * n if system == 'advection' else [ref.cons(*x, g)] * n
            thr = [0.] if system == 'advection' else [0., 0.]
            s = make(system, 0, avg, thr, bc, g)
            s.sensors.sensing(s)
            obs.trans()
            obs.trace()
            obs.state('uniform', system, x, n, bc, g)
            if np.any(np.array(s.sensors.sensors)[1:-1] != 0):
                raise Violation('cells of a uniform solution are flagged', state=x, gamma=g, cells=n)
        # streams that meet or part with equal density and pressure: velocity is the only difference
        for (r, p), v, n, g in itertools.product([(1., 1.), (.5, 2.), (3., .25)], [-2., -.5, .25, 1., 4.], (2, 3, 6), (1.4, 3.)) if system == 'euler' else []:
            avg = [ref.cons(r, v if 2 * i < n else -v, p, g) for i in range(n)]
            for thr in ([0., 0.], [2., 0.]):
                s = make(system, 0, avg, thr, ('zerograd', 'zerograd'), g)
                s.sensors.sensing(s)
                obs.trans()
                obs.state('meet', r, p, v, n, g, thr)
                if np.any(np.array(s.sensors.sensors)[1:-1] != 0):
                    raise Violation('streams of equal density and pressure are flagged at thresholds of zero', state=(r, v, p), gamma=g, cells=n)
        obs.outcome('uniform')
    elif c.get('kind') == 'jump':
        n = c['N']
        bc = bcs[n % 4]
        # a shock, a contact and a step back at every position
        pairs = [(0., 1.), (1., -.4)] if system == 'advection' else [((1., 0., 1.), (.125, 0., .1)), ((.3, .2, 1.), (2., .2, 1.)), ((1., .1, 3.), (1., .1, 1.))]
        for j in range(n) if n <= 66 else [0, 1, 2, n // 3, n // 2, n - 3, n - 2, n - 1]:
            for x, y in pairs:
                drift = 1 + 1e-3 * np.sin(np.arange(n))  # all cells different
                if system == 'advection':
                    avg, thrs = [[(x if i < j else y) * drift[i]] for i in range(n)], [[.1], [.4]]
                else:
                    avg, thrs = [ref.cons(*[v * drift[i] for v in (x if i < j else y)], 1.4) for i in range(n)], [[.35, .1], [.01, .05], [-1., .3]]
                for thr in thrs:
                    s = make(system, 1, avg, thr, bc, 1.4)
                    check(s, thr, 1.4, obs, jump=j, cells=n)
                    obs.trace()
                obs.state('jump', system, n, j, x)
    elif c.get('kind') == 'long':
        for n, k, a in itertools.product((12, 33, 64), (2, 3, 5), (1, 2, 3, 5)):
            w = [(i * a + i * i // 5) % k for i in range(n)]
            w = [x if i % 3 else 0 for i, x in enumerate(w)]
            avg = [[AVALS[i]] for i in w] if system == 'advection' else [ref.cons(*estates(9)[i], 1.4) for i in w]
            for thr in ([[x] for x in (.1, .45)] if system == 'advection' else ETHR):
                s = make(system, 1, avg, thr, bcs[a % 4], 1.4)
                check(s, thr, 1.4, obs, word=w)
                obs.trace()
                obs.state('long', system, w, thr)
    else:
        g = c.get('gamma', 1.4)
        st = None if system == 'advection' else [ref.cons(*x, g) for x in estates(c['k'])]
        for tail in itertools.product(range(c['k']), repeat=c['N'] - len(c['head'])):
            w = tuple(c['head']) + tail
            avg = [[AVALS[i]] for i in w] if st is None else [st[i] for i in w]
            for thr in ([[x] for x in ATHR] if st is None else ETHR):
                for bc in bcs if c['N'] <= 3 else bcs[:2] if sum(w) % 2 else bcs[2:]:
                    s = make(system, sum(w) % 3, avg, thr, bc, g)
                    check(s, thr, g, obs, word=w, bc=bc)
                    obs.trace()
                    obs.state(system, w, thr, bc, g)
