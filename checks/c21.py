"""C21 ghost cells always mirror the boundary conditions"""
import itertools
import os

import numpy as np

from mc import core, impl, space
from mc.core import Violation

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation histories on real solutions, ghost cells compared with a model after each application'
RULE = ('system x order x number of cells x left and right boundary type x origin (new, copied, read from a file into two kinds of readers, '
        'coefficients replaced) with a distinct value in every coefficient; histories: every sequence of changing one interior cell, changing '
        'both ghosts, switching boundary types, copying, writing and reading, applying the boundary conditions')
BOUNDS = {
    'quick': 'orders 0-6, 1-12 and 40 cells (order 1: 52 more up to 4097) (2 and more for loaded ones), all boundary pairs, 5 origins; histories of length 5 over 7 operations, 2 systems',
    'thorough': 'orders 0-9, 1-25 cells; histories of length 6',
}
CHUNK = 4
BC = ['periodic', 'zerograd']


def cases(tier):
    quick = tier == 'quick'
    for p in range(0, 7 if quick else 10):
        for system in ('advection', 'euler'):
            yield dict(kind='all', p=p, system=system, N=list(range(1, 13 if quick else 26)) + [40])
    for p in range(7 if quick else 10, 14):
        for system in ('advection', 'euler'):
            yield dict(kind='all', p=p, system=system, N=[1, 2, 3, 8])
    for system in ('advection', 'euler'):
        for n in space.SIZES[10:] + space.SIZES_HUGE + space.SIZES_VAST:
            yield dict(kind='all', p=1, system=system, N=[n])
        for first in itertools.product(range(7), repeat=2):
            yield dict(kind='history', system=system, first=list(first), depth=5 if quick else 6)


def model(a, bc):
    """[mode, cell with ghosts, field]"""
    left = a[:, -1] if bc[0] == 'periodic' else a[:, 0]
    right = a[:, 0] if bc[1] == 'periodic' else a[:, -1]
    return np.concatenate([left[:, None], a, right[:, None]], 1)


def check(s, obs, **kw):
    a = impl.interior(s)
    bc = (str(s.bc_l), str(s.bc_r))
    want = model(a, bc).reshape(a.shape[0], -1)
    for k in (1, 2):
        s.apply_bc()
        obs.trans()
        if s.u.shape != want.shape or not np.array_equal(s.u, want):
            raise Violation('after applying the boundary conditions%s the cells are not those of a %s left and %s right end' % (
                ' again' if k == 2 else '', *bc), got=np.array(s.u).tolist(), expected=want.tolist(), **kw)


def number(s, start=1.0):
    s.u = np.full(s.u.shape, -1e5) + np.arange(s.u.size).reshape(s.u.shape)
    n = s.u[:, s.N_F:-s.N_F]
    n[...] = start + np.arange(n.size).reshape(n.shape)


def roundtrip(s, reader=0, k=3):
    d = core.scratch() + '/io'
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    for f in os.listdir('.'):
        os.unlink(f)
    impl.solution.Solution.printer(s, k, 0.1)
    if reader == 0:
        l = impl.RecSolution('empty', s.keywords['system'], 0)
    else:
        l = impl.new(s.keywords['system'], (s.basis.p + 1) % 3, 5, bc=('zerograd', 'periodic'))
    l.loader(k)
    return l


def run_case(c, obs):
    system = c['system']
    if c['kind'] == 'all':
        for n, bl, br, half in itertools.product(c['N'], BC, BC, (1, 5)):
            for origin in ('new', 'copy', 'read', 'read into another', 'replaced'):
                if n == 1 and origin.startswith('read'):
                    continue
                s = impl.new(system, c['p'], n, 'rusanov', bc=(bl, br), half=half)
                number(s)
                if origin == 'copy':
                    t, s = s, s.copy()
                    number(t, 5000.)
                elif origin == 'read':
                    s = roundtrip(s)
                elif origin == 'read into another':
                    s = roundtrip(s, 1)
                elif origin == 'replaced':
                    t = s.copy()
                    number(t, 777.)
                    s.copy_data_only(t)
                if (str(s.bc_l), str(s.bc_r)) != (bl, br):
                    raise Violation('a solution (%s) has boundary types %s %s instead of %s %s' % (origin, s.bc_l, s.bc_r, bl, br))
                check(s, obs, origin=origin, p=c['p'], cells=n)
                # only the newest values count
                a = impl.interior(s)
                s.u[:, s.N_F:2 * s.N_F] += 0.5
                s.u[:, -2 * s.N_F:-s.N_F] += 0.25
                check(s, obs, origin=origin, p=c['p'], cells=n)
                obs.trace()
                obs.state(system, c['p'], n, bl, br, half, origin)
                obs.outcome('%s %s %s' % (bl, br, origin))
        return
    if system == 'euler':
        types = [('zerograd', 'periodic'), ('periodic', 'periodic'), ('zerograd', 'zerograd'), ('periodic', 'zerograd')]
    else:
        types = [('periodic', 'periodic'), ('zerograd', 'zerograd'), ('periodic', 'zerograd'), ('zerograd', 'periodic')]
    for seq in itertools.product(range(7), repeat=c['depth'] - 2):
        seq = tuple(c['first']) + seq
        if seq[-1] == 0:
            continue  # the same as the shorter one
        s = impl.new(system, 1, 3, 'rusanov', bc=types[0])
        number(s)
        k = t = 0
        for op in seq:
            k += 1
            N = s.N_F
            if op == 0:
                check(s, obs, history=seq)
            elif op == 1:
                s.u[:, N:2 * N] += 10. * k
            elif op == 2:
                s.u[:, -2 * N:-N] -= 7. * k
            elif op == 3:
                s.u[:, :N] = k
                s.u[:, -N:] = -k
            elif op == 4:
                t = (t + 1) % 4
                s.bc_l, s.bc_r = types[t]
            elif op == 5:
                old, s = s, s.copy()
                number(old, 99.)
            elif op == 6:
                s = roundtrip(s)
            obs.trans()
        if (str(s.bc_l), str(s.bc_r)) != types[t]:
            raise Violation('the boundary types changed', history=seq)
        check(s, obs, history=seq)
        obs.trace()
        obs.state('history', system, seq)
    obs.outcome('history')
