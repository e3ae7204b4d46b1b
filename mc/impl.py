"""Seam to the code under test: everything the checks need from /repo goes through here.

Only the interfaces used by the program itself (main.py) and by its own unit tests are used.
"""
import copy
import itertools
import sys
import warnings

import numpy as np

from mc import core

warnings.simplefilter('ignore')
np.seterr(all='ignore')
sys.path.insert(0, core.REPO)

import dg1d.advection_physics as advection_physics  # noqa: E402
import dg1d.basis as basis  # noqa: E402
import dg1d.constants as constants  # noqa: E402
import dg1d.deck as deckmod  # noqa: E402
import dg1d.dg as dg  # noqa: E402
import dg1d.enhance as enhance  # noqa: E402
import dg1d.euler_physics as euler_physics  # noqa: E402
import dg1d.helpers as helpers  # noqa: E402
import dg1d.limiting as limiting  # noqa: E402
import dg1d.rk as rk  # noqa: E402
import dg1d.rk_coeffs as rk_coeffs  # noqa: E402
import dg1d.sensor as sensor  # noqa: E402
import dg1d.solution as solution  # noqa: E402

assert solution.__file__.startswith(core.REPO), solution.__file__

SCHEMES = ['rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14', 'low_storage_rk4']
SCHEME_ORDER = dict(rk3=3, rk4=4, rk5=5, rk6=6, rk8=8, rk10=10, rk12=12, rk14=14, low_storage_rk4=4)
FLUXES = ['roe', 'rusanov', 'godunov']


def table(rkname):
    f = getattr(rk_coeffs, 'get_%s_coefficients' % ('rk4' if rkname == 'low_storage_rk4' else rkname))
    c, a, b = f()
    c, a, b = np.array(c, float), np.array(a, float), np.array(b, float)
    full = np.zeros((len(c), len(c)))
    full[:b.shape[0], :b.shape[1]] = b[:, :len(c)]
    return c, a, np.tril(full, -1)


class Horizon(Exception):
    """An execution went on longer than anything the property allows"""


class Rec(list):
    """Output log shared by all copies of a solution"""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class RecSolution(solution.Solution):
    """A solution that keeps its outputs in memory instead of writing them to files"""

    def __init__(self, *a, **k):
        self.rec = Rec()
        super().__init__(*a, **k)

    def printer(self, nout, dt):
        self.rec.append((int(nout), float(self.t), int(self.n), np.array(self.u, copy=True),
                         np.array(self.sensors.sensors, copy=True) if self.issensing else None, float(dt)))


class Deck:
    def __init__(self, rk='rk4', finaltime=1., nout=2, cfl=0.5):
        self.rk, self.finaltime, self.nout, self.cfl = rk, finaltime, nout, cfl


_TEMPLATES = {}


def new(*a, **k):
    """A copy of a solution built by build_new (construction is much slower than copying)"""
    key = (a, tuple(sorted((n, tuple(v) if isinstance(v, list) else v) for n, v in k.items())))
    if key not in _TEMPLATES:
        if len(_TEMPLATES) > 400:
            _TEMPLATES.clear()
        _TEMPLATES[key] = (build_new(*a, **k), constants.gamma)
    t, g = _TEMPLATES[key]
    s = copy.deepcopy(t)
    s.rec = Rec()
    constants.gamma = g
    return s


def build_new(system='advection', p=1, N=3, riemann='roe', enh='', thr=(), bc=('periodic', 'periodic'), gamma=1.4,
        half=1, cls=RecSolution):
    """A solution with zero data on N cells of a domain of half length `half` in (1, 4, 5)"""
    name = {1: 'sinewave' if system == 'advection' else 'entrpyw', 4: 'simplew', 5: 'shuoshe'}[half]
    s = cls('%s %d' % (name, N), system, p, riemann, enh, list(thr))
    if s.u.shape != (p + 1, (N + 2) * s.N_F):
        raise core.Violation('a new solution has coefficients of shape %s instead of %s' % (s.u.shape, (p + 1, (N + 2) * s.N_F)))
    constants.gamma = gamma
    s.bc_l, s.bc_r = bc
    return s


def fill(s, cells):
    """Sets interior data: cells[e][field] = list of modes (padded with zeros); ghosts are poisoned"""
    s.u = np.full(s.u.shape, np.nan)
    s.u[:, s.N_F:-s.N_F] = 0
    for e, cell in enumerate(cells):
        for f, modes in enumerate(cell):
            for m, v in enumerate(modes):
                if m <= s.basis.p:
                    s.u[m, (e + 1) * s.N_F + f] = v
    s.apply_bc()
    return s


def interior(s, u=None):
    """Array [mode, cell, field] of the interior"""
    u = s.u if u is None else u
    return np.array(u[:, s.N_F:-s.N_F]).reshape(u.shape[0], -1, s.N_F)


def put(s, a):
    """Inverse of interior()"""
    s.u = np.full(s.u.shape, np.nan)
    s.u[:, s.N_F:-s.N_F] = np.asarray(a).reshape(a.shape[0], -1)
    s.apply_bc()
    return s


def conserved(rho, u, p, gamma=1.4):
    return [rho, rho * u, p / (gamma - 1) + 0.5 * rho * u * u]


class Solver:
    """The DG solver with a bound on the number of evaluations of an execution"""

    def __init__(self, s, horizon=20000):
        self.dg = dg.DG(s)
        self.left = horizon

    def residual(self, s):
        self.left -= 1
        if self.left < 0:
            raise core.Violation('a run takes far more residual evaluations than its time steps need')
        return self.dg.residual(s)


def residual(s):
    return interior(s, dg.DG(s).residual(s))


def speed(s):
    """Largest signal speed by the definition (not by the code)"""
    if s.keywords['system'] != 'euler':
        return 1.0
    a = interior(s)[0]
    g = constants.gamma
    v = a[:, 1] / a[:, 0]
    p = (g - 1) * (a[:, 2] - 0.5 * a[:, 0] * v * v)
    return float(np.max(np.abs(v) + np.sqrt(g * p / a[:, 0])))


# the schemes with very large coefficients need small steps for rough data
FRAC = dict(rk10=0.2, rk12=0.1, rk14=0.004)


def run(s, rkname, nsteps, cfl=0.4, limiter='', frac=None, prelimit=False, free=False):
    """A run with nsteps outputs after the initial one, spaced by `frac` of the CFL step of the initial data.

    With `free`, all steps but the last are uncut CFL steps and only the initial and final solution are written.
    Returns the list of recorded outputs."""
    frac = frac or FRAC.get(rkname, 0.75)
    dt = cfl * s.dx / ((2 * s.basis.p + 1) * speed(s))
    d = Deck(rkname, s.t + nsteps * frac * dt, nsteps + 1, cfl)
    if free:
        d = Deck(rkname, s.t + (nsteps - 0.4) * frac * dt, 2, cfl * frac)
    solver = Solver(s, 200 * (nsteps + 1) * 40)
    lim = limiting.Limiter(limiter, s)
    if prelimit:
        lim.limit(s)
    s.rec.clear()
    try:
        rk.integrate(s, d, solver, lim)
    except SystemExit as e:
        raise core.Violation('the run stopped: %s' % e)
    if len(s.rec) != d.nout:
        raise core.Violation('the run wrote %d outputs instead of %d' % (len(s.rec), d.nout))
    return list(s.rec)


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def necklaces(k, n):
    """Words of length n over range(k), one per rotation class"""
    for w in itertools.product(range(k), repeat=n):
        if all(w <= w[i:] + w[:i] for i in range(1, n)):
            yield w


def close(a, b, tol, scale=1.0):
    """Elementwise |a-b| <= tol*scale, False for NaN"""
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * scale))


def err(a, b, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    e = np.abs(a - b) / scale
    m = float(np.max(e)) if not np.any(np.isnan(e)) else float('nan')
    return m if m == m else float('inf')


def expect_close(what, a, b, tol, scale=1.0, **detail):
    e = err(a, b, scale)
    if not e <= tol:
        raise core.Violation('%s: relative difference %.3g (allowed %.1g)' % (what, e, tol),
                             got=np.array(a).tolist(), expected=np.array(b).tolist(), **detail)
    return e
