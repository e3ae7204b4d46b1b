"""C16 a written solution reads back as the same solution"""
import itertools
import math
import os

import numpy as np

from mc import core, impl, ref, space
from mc.core import Violation

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of write/read histories of the real code, compared bit for bit with the written state'
RULE = ('values: every placement (rotation) of an alphabet of special floating-point values x system, order, cells, boundary pair, step '
        'number, time, output number; behavior: every word of cell states, all evaluations and time steps of the solution read back are '
        'compared with those of the original; histories: every sequence of writes and reads of two solutions of different shapes')
BOUNDS = {
    'quick': 'orders 0-13, 2-5 cells, 14 special values (also infinite and not a number) in every rotation, 6 times, 4 step numbers, 6 output numbers, 4 boundary pairs, 3 domains; words of length 2-3 over 3 letters; histories of 4 operations (write, change at the same time and step, read, write what was read); many numbers of cells from 4 to 4097; output numbers 0-1039',
    'thorough': 'orders 0-8, 2-7 cells; words of length 2-4 over 4 letters; histories of 5 operations',
}
CHUNK = 2
VALUES = [0.0, -0.0, 1 / 3., -math.pi, 1e16 + 2, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 0.1, -1e-17, 123456789.123456789, math.inf, -math.inf, math.nan]
TIMES = [0, 0.1, 1 / 3., 1e-300, 123456.78901234567, 2.5]
NS = [0, 1, 99, 12345678]
OUTS = [0, 1, 10, 987654321, 1234567890, 98765432109]


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 6 if quick else 9):
        for system in ('advection', 'euler'):
            for n in (2, 3, 5) if quick else (2, 3, 4, 7):
                yield dict(kind='values', p=p, system=system, N=n)
            for bc in itertools.product(['periodic', 'zerograd'], repeat=2):
                yield dict(kind='behavior', p=p, system=system, bc=list(bc), L=3 if quick else 4, k=3 if quick else 4)
    for p in range(6 if quick else 9, 14):
        for system in ('advection', 'euler'):
            yield dict(kind='values', p=p, system=system, N=3)
            yield dict(kind='behavior', p=p, system=system, bc=['periodic', 'zerograd'], L=2, k=3, soft=True)
    for n in space.SIZES + space.SIZES_HUGE + space.SIZES_VAST:
        yield dict(kind='sizes', N=n, orders=[0, 1, 3] if quick else list(range(7)))
    for lo in range(0, 1040, 40):
        yield dict(kind='numbers', lo=lo, hi=lo + 40)
    for first in range(8):
        yield dict(kind='history', first=first, depth=4 if quick else 5)


def fresh_dir():
    d = core.scratch() + '/io'
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.chdir(d)


def write(s, k, dt=0.25):
    impl.solution.Solution.printer(s, k, dt)


def same(a, b, what, **kw):
    """Loaded solution a against the original b"""
    if a.u.shape != b.u.shape:
        raise Violation(what + ': shape %s instead of %s' % (a.u.shape, b.u.shape), **kw)
    x, y = impl.interior(a), impl.interior(b)
    if not np.array_equal(x, y, equal_nan=True):
        raise Violation(what + ': coefficients differ', got=x.tolist(), written=y.tolist(), **kw)
    for k in ('t', 'n', 'N_E', 'N_F', 'bc_l', 'bc_r'):
        if getattr(a, k) != getattr(b, k):
            raise Violation(what + ': %s is %r instead of %r' % (k, getattr(a, k), getattr(b, k)), **kw)
    if a.basis.p != b.basis.p or a.basis.N_s != b.basis.N_s:
        raise Violation(what + ': order %d instead of %d' % (a.basis.p, b.basis.p), **kw)
    L = abs(b.x[-1] - b.x[0]) + np.max(np.abs(b.x))
    if not (np.array_equal(a.xc, b.xc) and impl.err(a.x, b.x, L) <= 1e-13 and impl.err(a.dx, b.dx, L) <= 1e-13):
        raise Violation(what + ': the grid differs', got=[a.x.tolist(), a.dx], written=[b.x.tolist(), b.dx], **kw)


def readers(system):
    """Solutions in different states to read into: empty, and filled with another shape and order"""
    yield impl.RecSolution('empty', system, 0, 'rusanov')
    o = impl.new(system, 2, 4, 'rusanov', bc=('zerograd', 'periodic'))
    o.u += 3.0
    o.t, o.n = 9.0, 77
    yield o


def run_case(c, obs):
    fresh_dir()
    if c['kind'] == 'history':
        return histories(c, obs)
    if c['kind'] == 'sizes':
        for p, system in itertools.product(c['orders'], ('advection', 'euler')):
            n = c['N']
            for bc in (('periodic', 'zerograd'), ('zerograd', 'periodic')):
                s = impl.new(system, p, n, bc=bc)
                i = np.arange((p + 1) * n * s.N_F)
                impl.put(s, (np.sin(1. + i * 0.37) * 10.**(i % 7 - 3)).reshape(p + 1, n, s.N_F))
                s.t, s.n = 0.1 * n, n
                write(s, n)
                for l in readers(system):
                    l.loader(n)
                    same(l, s, 'read back', cells=n, order=p, bc=bc)
                    obs.trace()
                    obs.trans(2)
                obs.state(system, p, n, bc)
                for f in os.listdir('.'):
                    os.unlink(f)
        obs.outcome('sizes')
        return
    if c['kind'] == 'numbers':
        # every output number and step number, all of them on disk together
        nums = range(c['lo'], c['hi'])
        sols = {}
        for k in nums:
            s = sols[k] = impl.fill(impl.new('advection', k % 3, 2 + k % 4), [[[k + .25, -.5 * k, 1. / (1 + k)]] for _ in range(2 + k % 4)])
            s.t, s.n = k * 0.1, 3 * k
            write(s, k)
        if sorted(os.listdir('.')) != ['u%010d.dat' % k for k in nums]:
            raise Violation('the files %s are written' % sorted(os.listdir('.')))
        for k in reversed(nums):
            l = impl.RecSolution('empty', 'advection', 0)
            l.loader(k)
            same(l, sols[k], 'read back', output=k)
            obs.trace()
            obs.trans(2)
            obs.state('number', k)
        obs.outcome('numbers')
        return
    system, p = c['system'], c['p']
    if c['kind'] == 'values':
        for half, bc in itertools.product((1, 4, 5), itertools.product(['periodic', 'zerograd'], repeat=2)):
            s = impl.new(system, p, c['N'], bc=bc, half=half)
            size = (p + 1) * c['N'] * s.N_F
            for r in range(len(VALUES)):
                vals = np.array([VALUES[(r + 3 * i + i // len(VALUES)) % len(VALUES)] for i in range(size)])
                impl.put(s, vals.reshape(p + 1, c['N'], s.N_F))
                s.t, s.n, out = TIMES[r % len(TIMES)], NS[r % len(NS)], OUTS[(r + p) % len(OUTS)]
                u0 = np.array(s.u)
                write(s, out)
                if not np.array_equal(s.u, u0, equal_nan=True):
                    raise Violation('writing changes the solution')
                want = sorted('%s%010d.dat' % (f, out) for f in s.keywords['fields'])
                if sorted(os.listdir('.')) != want:
                    raise Violation('the files %s are written instead of %s' % (sorted(os.listdir('.')), want))
                for l in readers(system):
                    l.loader(out)
                    same(l, s, 'read back', values=vals.tolist(), t=s.t, n=s.n, output=out, bc=bc, cells=c['N'], order=p)
                    obs.trace()
                    obs.trans(2)
                obs.state(system, p, c['N'], half, bc, r)
                for f in want:
                    os.unlink(f)
        obs.outcome('values')
        return
    words = [w for n in range(2, c['L'] + 1) for w in itertools.product(range(c['k']), repeat=n)]
    for i, w in enumerate(words):
        s = space.build(dict(c, word=w, flux='rusanov', half=(1, 4, 5)[i % 3]))
        s.t, s.n = TIMES[i % 6], NS[i % 4]
        write(s, i)
        text = {f: open(f).read() for f in sorted(os.listdir('.'))}
        for l in readers(system):
            l.loader(i)
            same(l, s, 'read back', word=w)
            compare_behavior(l, s, obs, w, system)
            for f in list(text):
                os.unlink(f)
            write(l, i)
            again = {f: open(f).read() for f in sorted(os.listdir('.'))}
            if again != text:
                raise Violation('writing the solution read back gives other files', word=w)
            obs.trace()
            obs.trans(3)
        for f in text:
            os.unlink(f)
        obs.state(system, p, tuple(c['bc']), w)
    obs.outcome('behavior')


def compare_behavior(l, s, obs, w, system):
    a, b = l.copy(), s.copy()
    a.u[:, :a.N_F] = a.u[:, -a.N_F:] = 55.
    a.apply_bc()
    b.apply_bc()
    if not np.array_equal(a.u, b.u):
        raise Violation('the ghost cells of the solution read back differ', word=w, got=a.u.tolist(), expected=b.u.tolist())
    sc = 1 + np.max(np.abs(b.u))
    for what, x, y in (('collocated values', a.collocate(), b.collocate()), ('face values', a.evaluate_faces(), b.evaluate_faces()),
                       ('signal speed', a.max_wave_speed(), b.max_wave_speed()), ('operator', impl.residual(a), impl.residual(b))):
        y = np.array(y, float)
        impl.expect_close(what + ' of the solution read back', np.array(x, float), y, 1e-11, sc + np.max(np.abs(y)), word=w)
    for rk in ('rk3', 'low_storage_rk4'):
        a, b = l.copy(), s.copy()
        a.rec, b.rec = impl.Rec(), impl.Rec()
        a.apply_bc()
        b.apply_bc()
        ra, rb = impl.run(a, rk, 2), impl.run(b, rk, 2)
        for x, y in zip(ra, rb):
            if x[2] != y[2] or abs(x[1] - y[1]) > 1e-12 * (1 + abs(y[1])):
                raise Violation('the solution read back takes other steps', word=w)
            impl.expect_close('a step of the solution read back', x[3], y[3], 1e-10, sc, word=w)


def histories(c, obs):
    """Two solutions (different order, cells, time) and one reader; the model is a map from output number to contents"""
    ops = ['w0 a', 'w0 b', 'w1 a', 'w1 b', 'w0 l', 'r0', 'r1', 'change']
    for seq in itertools.product(range(len(ops)), repeat=c['depth'] - 1):
        seq = (c['first'],) + seq
        names = [ops[j] for j in seq]
        if names[-1][0] != 'r' or names[0] in ('r0', 'r1', 'w0 l'):
            continue
        fresh_dir()
        a = space.build(dict(system='euler', p=1, word=(0, 1, 2)))
        b = space.build(dict(system='euler', p=2, word=(2, 1), bc=['zerograd', 'zerograd'], half=5))
        a.t, a.n, b.t, b.n = 0.5, 3, 1.25, 8
        l, loaded = impl.RecSolution('empty', 'euler', 0), False
        disk = {}
        for op in names:
            if op == 'change':
                # another state at the same time and step
                for s in (a, b, l):
                    s.u = s.u * .75
            elif op[0] == 'w':
                s = dict(a=a, b=b, l=l)[op[3]]
                if s is l and not loaded:
                    continue
                write(s, int(op[1]))
                disk[int(op[1])] = s.copy()
            elif int(op[1]) in disk:
                l.loader(int(op[1]))
                loaded = True
                same(l, disk[int(op[1])], 'read back after ' + ', '.join(names))
            obs.trans()
        obs.trace()
        obs.state('history', seq)
    obs.outcome('history')
