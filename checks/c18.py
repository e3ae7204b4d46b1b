"""C18 limiting keeps cell averages and touches only flagged cells"""
import itertools

import numpy as np

from mc import impl, ref, space
from mc.core import Violation

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of words of cell states and thresholds limited by the real limiter, and of call histories of one limiter'
RULE = ('every word of cell states x sensor thresholds (all, none, each kind only, in between) x order x system x boundary pair x limiter is limited '
        'once, starting from stale ghost cells; histories: every sequence of solutions given to one limiter (kept limited or refreshed) against '
        'a fresh limiter')
BOUNDS = {
    'quick': 'orders 0-4 (5-9: words of length 1-3), words of length 1-4 over 4 (advection) or 3 (Euler) letters, 4 and 6 thresholds, 4 boundary pairs, one 40-cell word family; many numbers of cells from 4 to 2049 with one jump at every position (above 51: 8 positions); histories of length 3 over 3 solutions',
    'thorough': 'orders 0-6, words of length 1-5 over 4 letters; histories of length 4 over 4 solutions',
}
CHUNK = 4
TOL = 1e-12
THR = dict(advection=[[-1.], [2.], [0.487], [0.3]],
           euler=[[-1., -1.], [2., 2.], [2., -1.], [-1., 2.], [0.35, 0.1], [0.1, 0.35]])


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 5 if quick else 7):
        for system in ('advection', 'euler'):
            k = 4 if system == 'advection' or not quick else 3
            for n in range(1, 5 if quick else 6):
                for head in itertools.product(range(k), repeat=max(0, n - 3)):
                    yield dict(kind='words', p=p, system=system, N=n, k=k, head=list(head))
            yield dict(kind='long', p=p, system=system)
            if p in (1, 3):
                for n in space.SIZES + [512, 1024, 2049]:
                    yield dict(kind='jump', p=p, system=system, N=n)
            yield dict(kind='history', p=p, system=system, k=3 if quick else 4, depth=3 if quick else 4)
    for p in range(5 if quick else 7, 10):
        for system in ('advection', 'euler'):
            for n in (1, 2, 3) if quick else (1, 2, 3, 4):
                yield dict(kind='words', p=p, system=system, N=n, k=3, head=[])
            yield dict(kind='jump', p=p, system=system, N=9)


def make(system, p, w, thr, bc):
    s = space.build(dict(system=system, p=p, word=w, thr=thr, bc=bc, flux='rusanov'))
    N = s.N_F
    # what a ghost cell may hold before it is refreshed: the values of some other cell
    s.u[:, :N] = s.u[:, N:2 * N][:, ::-1] + (0.3 if system == 'advection' else 0)
    s.u[:, -N:] = 2 * s.u[:, N:2 * N]
    return s


def check(s, lim, limname, obs, thr, **kw):
    system, p, bc = s.keywords['system'], s.basis.p, (s.bc_l, s.bc_r)
    before = impl.interior(s)
    t, n = s.t, s.n
    lim.limit(s)
    after = impl.interior(s)
    if s.u.shape != (p + 1, (before.shape[1] + 2) * before.shape[2]) or (s.t, s.n, s.bc_l, s.bc_r) != (t, n) + bc:
        raise Violation('limiting changes the shape, time or boundary conditions', **kw)
    obs.trans()
    if limname != 'adaptive_hr':
        if not np.array_equal(before, after):
            raise Violation('the solution changes although no limiting is selected', before=before.tolist(), after=after.tolist(), **kw)
        return after
    flags = [int(x) for x in s.sensors.sensors[1:-1]]
    margins, want = [], []
    exp = ref.limit(before, bc, system, thr, 1.4, margins, want)
    scale = 1 + np.max(np.abs(before))
    if min(abs(m) for m in margins) > 1e-9:
        if [bool(f) for f in flags] != [bool(f) for f in want[1:-1]]:
            raise Violation('the cells flagged are not those next to a detected discontinuity', flags=flags, expected=want[1:-1], **kw)
    else:
        obs.outcome('knife-edge')
    d = np.abs(after[0] - before[0])
    if not np.max(d) <= TOL * scale:
        raise Violation('limiting changes a cell average', before=before[0].tolist(), after=after[0].tolist(), **kw)
    g = ref.ghosts(before, bc)
    for e, f in enumerate(flags):
        if not f:
            if not np.array_equal(before[:, e], after[:, e]):
                raise Violation('limiting changes a cell that is not flagged', cell=e, flags=flags, before=before.tolist(), after=after.tolist(), **kw)
        else:
            for q in range(before.shape[2]):
                x = ref.hr(g[:, e + 1, q], g[:, e, q], g[:, e + 2, q])
                impl.expect_close('a flagged cell is not limited', after[:, e, q], x, 1e-10 * 10**max(0, p - 6), scale, cell=e, field=q, flags=flags, **kw)
    if not np.array_equal(np.array(s.u).reshape(p + 1, -1, before.shape[2]), ref.ghosts(after, bc)):
        raise Violation('the ghost cells do not match the boundary conditions after limiting', flags=flags, **kw)
    obs.outcome('flags ' + ''.join(map(str, flags)) if len(flags) < 4 else 'long')
    return after


def run_case(c, obs):
    system, p = c['system'], c['p']
    bcs = list(itertools.product(['periodic', 'zerograd'], repeat=2))
    if c['kind'] == 'words':
        for tail in itertools.product(range(c['k']), repeat=c['N'] - len(c['head'])):
            w = tuple(c['head']) + tail
            for thr in THR[system]:
                for bc in bcs if c['N'] < 4 else bcs[:1] + bcs[-1:]:
                    for limname in ('adaptive_hr', ''):
                        if limname == '' and (thr is not THR[system][0] or c['N'] > 3):
                            continue
                        s = make(system, p, w, thr, bc)
                        check(s, impl.limiting.Limiter(limname, s), limname, obs, thr, word=w, thresholds=thr, bc=bc, p=p)
                        obs.trace()
                        obs.state(system, p, w, thr, bc, limname)
    elif c['kind'] == 'jump':
        # one jump, at every position: nearly all cells are not flagged; and data with many jumps, all cells different
        n, thr, bc = c['N'], THR[system][-1 if system == 'advection' else -2], bcs[c['N'] % 4]
        for j in list(range(n)) if n <= 51 else [0, 1, 2, n // 3, n // 2, n - 3, n - 2, n - 1]:
            w = tuple(1 if i < j else 2 for i in range(n))
            s = make(system, p, w, thr, bc)
            check(s, impl.limiting.Limiter('adaptive_hr', s), 'adaptive_hr', obs, thr, jump=j, cells=n, thresholds=thr, bc=bc, p=p)
            obs.trace()
            obs.state(system, p, n, j)
        for thr in THR[system]:
            s = space.build(dict(system=system, p=p, size=n, vary=.2, thr=thr, bc=bc, flux='rusanov'))
            check(s, impl.limiting.Limiter('adaptive_hr', s), 'adaptive_hr', obs, thr, cells=n, thresholds=thr, bc=bc, p=p)
            obs.trace()
    elif c['kind'] == 'long':
        for n, k in ((40, 3), (17, 4), (64, 2)):
            for a in range(1, 6):
                w = tuple((i * a + i * i // 7) % k for i in range(n))
                for thr in THR[system]:
                    s = make(system, p, w, thr, bcs[a % 4])
                    check(s, impl.limiting.Limiter('adaptive_hr', s), 'adaptive_hr', obs, thr, word=w, thresholds=thr, p=p)
                    obs.trace()
                    obs.state(system, p, w, thr)
    else:
        ws = [(0, 1, 2), (1, 1, 1), (2, 0, 1), (1, 2, 0)][:c['k']]
        thr = THR[system][-2]
        for seq in itertools.product(range(2 * c['k']), repeat=c['depth']):
            sols = [make(system, p, w, thr, ('periodic', 'periodic')) for w in ws]
            lim = impl.limiting.Limiter('adaptive_hr', sols[0])
            for j in seq:
                i = j // 2
                if j % 2:  # new data
                    sols[i] = make(system, p, ws[(i + 1) % len(ws)], thr, ('periodic', 'zerograd'))
                others = [np.array(x.u) for x in sols]
                check(sols[i], lim, 'adaptive_hr', obs, thr, history=seq, p=p)
                for q, (x, y) in enumerate(zip(sols, others)):
                    if q != i and not np.array_equal(x.u, y):
                        raise Violation('limiting a solution changes another one', history=seq)
            obs.trace()
            obs.state('history', system, p, seq)
