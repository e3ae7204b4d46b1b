"""C03 results do not depend on where a periodic domain is cut"""
import numpy as np

from mc import impl, space
from mc.core import Violation

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('every configuration x every cyclic word of cell states; the runs from all rotations of the word are compared with each '
        'other after every step, including the flags of the sensors')
BOUNDS = {
    'quick': 'orders 0-3 (4-12 with three words), rk4 (all limiters, enhancements, fluxes) and the other 8 integrators at order 1; cyclic words of length 2-4 over 3 letters (length 4 without enhancement for rk4), 2 steps; many numbers of cells from 4 to 2049 with all cells different, shifts by one cell and half the domain, 1 step, and 2 steps of uncut CFL size; 3 uncut steps of Euler words of length 3; 33 cells, all shifts; 7 cells, 40 steps',
    'thorough': 'orders 0-4, all 9 integrators; cyclic words of length 2-5 over 4 letters (3 with Euler enhancement), 3 steps; numbers of cells up to 4097; 120 steps',
}
ASSUMPTIONS = ['cell states outside the alphabets and longer runs are not explored']
CHUNK = 4
TOL = 1e-10


def cases(tier):
    quick = tier == 'quick'
    for c in space.configs(range(0, 4) if quick else range(0, 5), impl.SCHEMES, limiters=('', 'some', 'all')):
        if quick and c['rk'] != 'rk4' and c['p'] != 1:
            continue
        if c['p'] > 3 and c['rk'] not in ('rk3', 'rk4', 'low_storage_rk4'):
            continue
        for n in ((2, 3, 4) if quick else (2, 3, 4, 5)):
            if quick and n == 4 and (c['rk'] != 'rk4' or c['enh']):
                continue
            if n == 5 and c['rk'] not in ('rk3', 'rk4', 'low_storage_rk4'):
                continue
            k = 3 if quick or (c['enh'] and c['system'] == 'euler') or n == 5 else 4
            for w in impl.necklaces(k, n):
                if len(set(w)) == 1:
                    continue
                yield dict(c, word=list(w), steps=2 if quick else 3)
                if n > 2 and (c['system'] == 'euler') and (not quick or n == 3 and c['p'] < 3):
                    yield dict(c, word=list(w), steps=3, free=True)
    for c in space.high(limiters=('', 'all', 'some')):
        for w in ((0, 1, 2), (0, 1, 2, 2), (1, 2)):
            yield dict(c, word=list(w), steps=2)
    for c in space.configs(range(0, 3) if quick else range(0, 5), impl.SCHEMES, limiters=('', 'some'), fluxes=['roe', 'godunov']):
        if c['p'] == 1 and c['rk'] == 'rk4' and not c['enh']:
            for n in space.SIZES + (space.SIZES_HUGE[:1] + [1024, 2049] if quick else space.SIZES_HUGE + space.SIZES_VAST):
                yield dict(c, size=n, shifts=[0, 1, n // 2], steps=1)
                if c['system'] == 'euler' and c['flux'] == 'roe':
                    yield dict(c, size=n, shifts=[0, 1, n // 2, n - 1], steps=2, free=True)
        elif c['rk'] == 'rk4' or not quick:
            yield dict(c, size=33, shifts=list(range(33)), steps=1)
            yield dict(c, size=101, shifts=[0, 1, 2, 50, 99, 100], steps=1)
        if c['rk'] in ('rk3', 'rk4', 'low_storage_rk4') and (not quick or c['p'] and not c['enh']):
            yield dict(c, size=7, shifts=[0, 1, 3], steps=40 if quick else 120)


def run_case(c, obs):
    n = c['size'] if 'size' in c else len(c['word'])
    base = None
    for r in c['shifts'] if 'size' in c else range(n):
        if 'size' in c:
            s = space.build(c)
            impl.put(s, np.roll(impl.interior(s), -r, axis=1))
        else:
            w = c['word'][r:] + c['word'][:r]
            if r and w == c['word']:
                break
            s = space.build(dict(c, word=w))
        rec = impl.run(s, c['rk'], c['steps'], limiter=c['lim'], free=c.get('free', False))
        obs.trace()
        st = []
        for o in rec:
            a = np.roll(impl.interior(s, o[3]), r, axis=1)
            fl = None if o[4] is None else np.roll((o[4][1:-1] != 0).astype(int), r)
            st.append((o[1], o[2], a, fl))
            obs.trans()
            obs.state(c['p'], c['rk'], c['flux'], c['enh'], c['lim'], c['thr'], o[3])
        if base is None:
            base = st
            flags = sum(0 if f is None else int(f.sum()) for _, _, _, f in st)
            obs.outcome('%s flagged=%s' % (c['system'], 'none' if not flags else 'all' if flags == n * c['steps'] else 'some'))
            continue
        scale = 1 + np.max(np.abs(base[0][2]))
        for k, (x, y) in enumerate(zip(base, st)):
            if x[1] != y[1] or abs(x[0] - y[0]) > 1e-12 * (1 + abs(x[0])):
                raise Violation('the shifted run takes other steps', shift=r, output=k)
            if x[3] is not None and k > 0 and not np.array_equal(x[3], y[3]):
                raise Violation('the shifted run flags other cells', shift=r, output=k, flags=x[3].tolist(), shifted=y[3].tolist())
            e = impl.err(y[2], x[2], scale)
            obs.note_max('error', e)
            if not e <= TOL:
                raise Violation('the shifted run differs', shift=r, output=k, error=e, result=x[2].tolist(), shifted=y[2].tolist())


def vacuity(total, ncases, tier):
    if not any('flagged=some' in k for k in total.outcomes):
        return 'limiting never touched only a part of the cells'
