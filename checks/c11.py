"""C11 every time integrator has its stated order of accuracy"""
import numpy as np

from mc import impl
from mc.core import Violation

ID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all rooted trees (order conditions), each evaluated by running the real integrator'
RULE = ('every integrator x every rooted tree with at most as many nodes as its stated order: the real integrator is run on the system '
        "y_tree' = product of y_child (y_leaf' = 1), whose exact solution t^n/gamma(tree) a scheme reproduces if and only if it "
        'satisfies the order condition of the tree; and every stage time against the row sum.  Non-trivial: distinct (integrator, tree)')
BOUNDS = {
    'quick': 'all rooted trees up to the stated order of each integrator (53272 for rk14), one step of size 1; steps of size 0.37 and two steps for orders up to 8',
    'thorough': 'in addition step 0.37 and two steps for all integrators',
}
ASSUMPTIONS = ['the order of a Runge-Kutta scheme is equivalent to its tree conditions (Butcher); coefficients are held to 1e-12, relative to the size of the terms of each condition']
CHUNK = 1
TOL = 2e-12

_T = {}


def trees(q):
    """parent, child, order, density of all rooted trees with at most q nodes; tree = parent grafted with child"""
    if q not in _T:
        by = {1: [0]}
        parent, child, order, prod = [-1], [-1], [1], [1.]
        gamma = [1.]
        for n in range(2, q + 1):
            by[n] = []
            for m in range(1, n):
                for ch in by[m]:
                    for pa in by[n - m]:
                        if child[pa] <= ch:
                            by[n].append(len(parent))
                            parent.append(pa)
                            child.append(ch)
                            order.append(n)
                            prod.append(prod[pa] * gamma[ch])
                            gamma.append(n * prod[-1])
        _T[q] = [np.array(x) for x in (parent, child, order, gamma)]
    return _T[q]


COUNTS = [1, 1, 2, 4, 9, 20, 48, 115, 286, 719, 1842, 4766, 12486, 32973]


class TreeSystem:
    """Right-hand side of all tree equations, in the place of the DG solver"""

    def __init__(self, q, absolute=False):
        self.parent, self.child, order, _ = trees(q)
        self.blocks = [np.where(order == n)[0] for n in range(2, q + 1)]
        self.times = []

    def residual(self, s):
        y = s.u[0, 1:-1]
        f = np.ones(len(y))
        for b in self.blocks:
            f[b] = f[self.parent[b]] * y[self.child[b]]
        out = np.zeros_like(s.u)
        out[0, 1:-1] = f
        self.times.append((s.t, float(y[0])))
        return out


def cases(tier):
    for rk in impl.SCHEMES:
        q = impl.SCHEME_ORDER[rk]
        yield dict(rk=rk, h=1.0, steps=1)
        if q <= 8 or tier == 'thorough':
            yield dict(rk=rk, h=0.37, steps=1)
            yield dict(rk=rk, h=0.5, steps=2)


def run_case(c, obs):
    q = impl.SCHEME_ORDER[c['rk']]
    _, _, order, gamma = trees(q)
    for n in range(1, q + 1):
        assert np.sum(order == n) == COUNTS[n - 1]
    n = len(order)
    s = impl.new('advection', 0, 2, '', '', (), ('zerograd', 'zerograd'))
    s.N_E = n
    s.u = np.zeros((1, n + 2))
    s.t = 0.0
    s.dx = 1.0
    tree = TreeSystem(q)
    T = c['h'] * c['steps']
    # steps of exactly h: each one is cut at an output time
    d = impl.Deck(c['rk'], T, c['steps'] + 1, 10.0)
    impl.rk.integrate(s, d, tree, impl.limiting.Limiter('', s))
    if len(s.rec) != c['steps'] + 1 or s.n != c['steps']:
        raise Violation('the run took %d steps and wrote %d outputs instead of %d steps' % (s.n, len(s.rec), c['steps']))
    got = s.rec[-1][3][0, 1:-1]
    want = T**order / gamma
    # size of the terms of the conditions: the same recursion with absolute values of the coefficients
    b, al, be = impl.table(c['rk'])
    h = c['h']
    Y = np.zeros((len(b), n))
    F = np.ones((len(b), n))
    for m in range(1, q + 1):
        idx = np.where(order == m)[0]
        if m > 1:
            F[:, idx] = F[:, tree.parent[idx]] * Y[:, tree.child[idx]]
        Y[:, idx] = h * np.abs(be) @ F[:, idx]
    size = np.minimum(1.0, h * np.abs(b) @ F) + want
    e = np.abs(got - want)
    obs.ev(n)
    for k in range(n):
        obs.state(c['rk'], k)
    obs.note_max('abs_error_' + c['rk'], e.max())
    obs.note_max('scaled_error_' + c['rk'], (e / size).max())
    obs.note_max('relative_error_' + c['rk'], (e / want).max())
    if not np.all(e <= TOL * size):
        k = int(np.argmax(~(e <= TOL * size)))
        raise Violation('%s violates an order condition of order %d' % (c['rk'], order[k]), tree=k, got=float(got[k]), expected=float(want[k]))
    # stage times
    for k, (t, y) in enumerate(tree.times):
        obs.ev()
        obs.note_max('stage_time_error', abs(t - y))
        if not abs(t - y) <= 1e-11:
            raise Violation('%s: the time of a stage is not the row sum of its coefficients' % c['rk'], stage=k, time=t, row_sum=y)
    obs.outcome('%s order %d' % (c['rk'], q))
