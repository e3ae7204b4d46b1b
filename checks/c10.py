"""C10 Roe's and Rusanov's fluxes are the published ones"""
import math

import numpy as np

from mc import impl, pairs, ref
from mc.core import Violation

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a grid of Riemann problems on the real fluxes against an independent implementation'
RULE = ('every ordered pair of two grids of states x ratios of specific heats for both fluxes (also as one vector of all right states, and every seventh pair in 5 other units); '
        'every single shock (3 families of strength, both directions, speeds of both signs and zero) and contact from the grid states. '
        'Non-trivial: distinct pairs of different states')
BOUNDS = {
    'quick': '3 ratios of specific heats x (153^2 + 105^2) pairs, 8 more (1.05 to 7) x 81^2 pairs x 2 fluxes; 8 shock strengths x 3 speeds',
    'thorough': '5 ratios of specific heats x (820^2 + 910^2) pairs x 2 fluxes',
}
CHUNK = 2
TOL = 1e-11


def cases(tier):
    yield from pairs.cases(tier)


def run_case(c, obs):
    g = c['gamma']
    L, others = pairs.lists(c)
    sr = impl.new('euler', 0, 2, 'roe', gamma=g)
    ss = impl.new('euler', 0, 2, 'rusanov', gamma=g)
    sd = impl.new('euler', 0, 2, 'anything', gamma=g)
    impl.constants.gamma = g
    UL = np.array(impl.conserved(*L, gamma=g))
    UR = np.array([impl.conserved(*R, gamma=g) for R in others])
    n = len(others)
    vec = {k: np.array(s.riemann(np.tile(UL, n), UR.ravel().copy())).reshape(n, 3) for k, s in (('roe', sr), ('rusanov', ss), ('default', sd))}
    for i, R in enumerate(others):
        sp = max(abs(L[1]) + math.sqrt(g * L[2] / L[0]), abs(R[1]) + math.sqrt(g * R[2] / R[0]))
        scale = max(L[0], R[0]) * np.array([sp, sp**2, sp**3])
        sides = []
        want = ref.roe(UL, UR[i], g, sides)
        for k, w in (('roe', want), ('default', want), ('rusanov', ref.rusanov(UL, UR[i], g))):
            e = impl.err(vec[k][i], w, scale)
            obs.ev()
            obs.note_max('error_' + k, e)
            if L != R:
                obs.state(g, k, L, R)
            if not e <= TOL:
                raise Violation('the %s flux is not the published one' % k, left=L, right=R, flux=vec[k][i].tolist(), expected=w.tolist())
        obs.outcome('entropy fix %s %s' % (sides[0][0], sides[1][0]))
    # the same problems in other units (density, velocity): pressures from 1e-8 to 1e10
    for sr_, sv in ((1e-6, 1.), (1e4, 1.), (1., 1e-4), (1.2, 340.), (1e-3, 1e3)):
        Lx = np.array(impl.conserved(L[0] * sr_, L[1] * sv, L[2] * sr_ * sv * sv, gamma=g))
        pick = list(range(c['left'] % 7, n, 7))
        Rx = np.array([impl.conserved(others[i][0] * sr_, others[i][1] * sv, others[i][2] * sr_ * sv * sv, gamma=g) for i in pick])
        for name, s, ref_flux in (('roe', sr, ref.roe), ('rusanov', ss, ref.rusanov)):
            V = np.array(s.riemann(np.tile(Lx, len(pick)), Rx.ravel().copy())).reshape(-1, 3)
            for i, v, Ri in zip(pick, V, Rx):
                R = others[i]
                sp = max(abs(L[1]) + math.sqrt(g * L[2] / L[0]), abs(R[1]) + math.sqrt(g * R[2] / R[0])) * sv
                w = ref_flux(Lx, Ri, g)
                e = impl.err(v, w, max(L[0], R[0]) * sr_ * np.array([sp, sp**2, sp**3]))
                obs.ev()
                obs.note_max('error_units', e)
                if not e <= TOL:
                    raise Violation('the %s flux is not the published one' % name, left=Lx.tolist(), right=Ri.tolist(), units=[sr_, sv], flux=v.tolist(), expected=w.tolist())
    # single shocks and contacts with the left state on the upstream or downstream side
    r, u, p = L
    a = math.sqrt(g * p / r)
    for z in (1.05, 1.3, 2., 3., 6., 10., 30., 100.):
        for fam in (-1, 1):
            for speed in (None, 0.0, -0.7, 0.9):
                ms = math.sqrt((g + 1) / (2 * g) * (z - 1) + 1)
                r2 = r * ((g + 1) * ms**2) / ((g - 1) * ms**2 + 2)
                # shock moving into state 1 with relative speed ms a in direction fam
                u1 = u if speed is None else speed - fam * ms * a
                S = u1 + fam * ms * a
                u2 = S - (u1 - S) * -1 * r / r2
                one = np.array(impl.conserved(r, u1, p, g))
                two = np.array(impl.conserved(r2, u2, p * z, g))
                UL_, UR_ = (two, one) if fam > 0 else (one, two)
                up = UL_ if S > 0 else UR_
                F = np.array(sr.riemann(UL_.copy(), UR_.copy()))
                want = ref.euler_flux(up, g)
                sp = max(abs(u1) + a, abs(u2) + math.sqrt(g * p * z / r2))
                e = impl.err(F, want, max(r, r2) * np.array([sp, sp**2, sp**3]))
                obs.ev()
                obs.note_max('error_shock', e)
                obs.outcome('shock speed %s' % np.sign(round(S, 9)))
                if not e <= 1e-10:
                    raise Violation('a single shock does not give the upstream flux', left=UL_.tolist(), right=UR_.tolist(), speed=S,
                                    flux=F.tolist(), expected=want.tolist())
    for r2 in (.1, .9, 1.1, 3., 20.):
        for v in (u, 0., -1.3, 2.):
            one, two = np.array(impl.conserved(r, v, p, g)), np.array(impl.conserved(r2, v, p, g))
            F = np.array(sr.riemann(one.copy(), two.copy()))
            want = ref.euler_flux(one if v >= 0 else two, g)
            sp = abs(v) + math.sqrt(g * p / min(r, r2))
            obs.ev()
            if not impl.err(F, want, max(r, r2) * np.array([sp, sp**2, sp**3])) <= 1e-10:
                raise Violation('a single contact does not give the upstream flux', left=one.tolist(), right=two.tolist(), flux=F.tolist(), expected=want.tolist())


def vacuity(total, ncases, tier):
    if sum(k.startswith('entropy fix') for k in total.outcomes) < 4:
        return 'not all branches of the entropy fix were reached'
