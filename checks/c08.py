"""C08 interface fluxes are consistent, local and pure"""
import itertools

import numpy as np

from mc import impl, ref
from mc.core import Violation

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of call histories and interface vectors of the real flux functions'
RULE = ('every flux x every state of a grid (consistency) x every vector of interfaces up to the bound over an alphabet of state pairs '
        'that reaches every branch (locality) x every history of calls up to the bound (purity)')
BOUNDS = {
    'quick': 'grid of 3 ratios of specific heats x 1000 states; vectors of length 1-3 over 14 state pairs, a vector of all pairs in every rotation; every pair next to itself with 6 changes of 14 sizes, and next to every pair at 8 scales; 90 lengths of vectors from 4 to 1026; histories of 2 calls of different lengths, also between different fluxes',
    'thorough': 'vectors of length 1-4 over 14 state pairs, 90 lengths of vectors from 4 to 1026; histories of 3 calls',
}
CHUNK = 1
TOL = 1e-12
# (left, right) primitive pairs: every wave pattern, supersonic both ways, sonic fans, equal states, strong jumps
PAIRS = [
    ((1., 0., 1.), (1., 0., 1.)), ((1., 0., 1.), (.125, 0., .1)), ((.125, 0., .1), (1., 0., 1.)), ((1., .75, 1.), (.125, 0., .1)),
    ((1., 3., 1.), (1., 3., 1.)), ((1., 3., 1.), (.5, 2.8, .7)), ((1., -3., 1.), (.7, -2.9, 1.2)), ((.125, 0., .1), (1., -.75, 1.)),
    ((1., -.5, .4), (1., .5, .4)), ((1., 2., 1.), (1., -2., 1.)), ((1.4, 0., 1.), (1., 0., 1.)), ((6., 19., 460.), (6., -6., 46.)),
    ((1., -.6, 1.), (1.5, -1.1, 1.2)), ((5., 3., 1.), (1., -3., 1.)),
]


def cases(tier):
    quick = tier == 'quick'
    for system, flux in (('advection', ''), ('euler', 'rusanov'), ('euler', 'roe'), ('euler', 'godunov'), ('euler', 'other')):
        for i in range(0, len(LENGTHS), 8):
            yield dict(kind='long', system=system, flux=flux, gamma=1.4, lengths=LENGTHS[i:i + 8])
    for system, flux in (('advection', ''), ('euler', 'rusanov'), ('euler', 'roe'), ('euler', 'godunov'), ('euler', 'other')):
        for g in (1.1, 2.2):
            for r in (.125, 1., 6.):
                yield dict(kind='consistent', system=system, flux=flux, gamma=g, rho=r)
        for g in (1.4, 5 / 3., 3.):
            for r in (.05, .125, .5, .7, 1., 1.4, 6.):
                yield dict(kind='consistent', system=system, flux=flux, gamma=g, rho=r)
            for first in range(len(PAIRS)):
                yield dict(kind='near', system=system, flux=flux, gamma=g, first=first)
                yield dict(kind='local', system=system, flux=flux, gamma=g, first=first, n=3 if quick else 4)
                yield dict(kind='history', system=system, flux=flux, gamma=g, first=first, n=2 if quick else 3)


# the pairs at other scales of density and velocity
SCALES = [(1., 1.), (1., 1e-2), (1e-3, 1e-2), (1e3, 1e3), (1e-6, 1.), (1., 1e-4), (1e4, 1e-3), (1e-8, 1e-4)]
DELTAS = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 2.3e-16]
LENGTHS = list(range(4, 70)) + [80, 99, 100, 101, 102, 127, 128, 129, 130, 150, 200, 255, 256, 257, 258, 300, 500, 512, 513, 1000, 1001, 1024, 1025, 1026]


def vec(system, word, side, g):
    if system != 'euler':
        return np.array([PAIRS[i][side][1] + 2 * PAIRS[i][side][0] for i in word])
    return np.array([v for i in word for v in impl.conserved(*PAIRS[i][side], gamma=g)])


def near(c, s, obs):
    """Interfaces next to nearly identical ones, and next to ones at very different scales"""
    g, system = c['gamma'], c['system']

    def flux(interfaces, what):
        L, R = [np.concatenate([np.atleast_1d(i[k]) for i in interfaces]) for k in (0, 1)]
        L0, R0 = L.copy(), R.copy()
        obs.trans()
        try:
            F = np.array(s.riemann(L, R))
        except SystemExit:
            if len(interfaces) > 1:
                raise Violation('the flux stops only because of its neighbors', interfaces=interfaces)
            return None
        if not (np.array_equal(L, L0) and np.array_equal(R, R0)):
            raise Violation('the flux changes its input', before=[L0.tolist(), R0.tolist()], after=[L.tolist(), R.tolist()])
        return F

    def state(q, lam, mu):
        if system != 'euler':
            return np.array([(q[1] + 2 * q[0]) * lam * mu])
        return np.array(impl.conserved(q[0] * lam, q[1] * mu, q[2] * lam * mu * mu, gamma=g))

    def group(ints, what):
        alone = [flux([i], what) for i in ints]
        ok = [k for k, a in enumerate(alone) if a is not None and np.all(np.isfinite(a))]
        if len(ok) < 2:
            obs.outcome('no flux for such states')
            return
        for order in (ok, ok[::-1]):
            F = flux([ints[k] for k in order], what)
            want = np.concatenate([alone[k] for k in order])
            n = len(want) // len(order)
            scale = np.repeat([max(abs(alone[k])) for k in order], n) + 1e-300
            # component by component relative to the interface's own flux
            e = impl.err(F, want, scale)
            obs.note_max('locality_error', e)
            if not e <= TOL:
                raise Violation(what, interfaces=[[x.tolist() for x in ints[k]] for k in order], flux=F.tolist(), alone=want.tolist())
        obs.state(c['flux'], g, *ints)
    base = PAIRS[c['first']]
    L, R = state(base[0], 1., 1.), state(base[1], 1., 1.)
    for d in DELTAS:
        ints = [(L, R)]
        for k in range(len(L)):
            for sg in (-1, 1):
                dl = np.zeros(len(L))
                dl[k] = sg * d
                ints += [(L + dl * (1 + abs(L)), R), (L, R + dl * (1 + abs(R))), (L, R)]
        group(ints, 'the flux at an interface depends on a nearly identical interface')
        group([(L, R), (L, L), (R, R), (L, L * (1 + d)), (R, L), (R * (1 - d), R)], 'the flux at an interface depends on the other interfaces')
    for j in range(len(PAIRS)):
        other = PAIRS[j]
        for sc in SCALES:
            group([(L, R), (state(other[0], *sc), state(other[1], *sc)), (R, L)], 'the flux at an interface depends on one at another scale')
        obs.trace()
    obs.outcome('near ' + c['flux'])


def run_case(c, obs):
    g, system = c['gamma'], c['system']
    nf = 3 if system == 'euler' else 1
    s = impl.new(system, 0, 2, c['flux'], gamma=g)
    if c['kind'] == 'consistent':
        for p in (.01, .1, .7, 1., 3., 500., 1e4, c['rho'] / g, 4 * c['rho'] / g):
            a = float(np.sqrt(g * p / c['rho']))
            # exactly sonic velocities and their neighbors are among them
            for u in (-20., -3., -1.2, -1., -.3, 0., .3, 1., 1.2, 3., 20., a, -a, a * (1 + 2e-16), a * (1 - 2e-16), -a * (1 + 2e-16), -a * (1 - 2e-16)):
                U = np.array(impl.conserved(c['rho'], u, p, g)) if nf == 3 else np.array([u * p])
                F = np.array(s.riemann(U.copy(), U.copy()))
                want = ref.physical_flux(system, U, g)
                sp = abs(u) + np.sqrt(g * p / c['rho'])
                scale = c['rho'] * np.array([sp, sp**2, sp**3]) if nf == 3 else 1 + abs(U)
                e = impl.err(F, want, scale)
                obs.note_max('consistency_error', e)
                obs.trans()
                obs.state('c', c['flux'], g, c['rho'], u, p)
                if not e <= TOL:
                    raise Violation('the flux between identical states is not the physical flux', state=[c['rho'], u, p],
                                    flux=F.tolist(), physical=want.tolist())
                f2 = np.array(s.interior_flux(U.reshape(1, nf).copy()))[0]
                if not impl.err(f2, want, scale) <= TOL:
                    raise Violation('the interior flux is not the physical flux', state=[c['rho'], u, p], flux=f2.tolist())
        obs.outcome('consistent ' + c['flux'])
        return
    if c['kind'] == 'near':
        return near(c, s, obs)
    alone = {}
    for i in range(len(PAIRS)):
        alone[i] = np.array(s.riemann(vec(system, [i], 0, g), vec(system, [i], 1, g)))
        if np.any(np.isnan(alone[i])):
            raise Violation('the flux is not a number', pair=PAIRS[i])

    def call(word, sol=s):
        L, R = vec(system, word, 0, g), vec(system, word, 1, g)
        L0, R0 = L.copy(), R.copy()
        F = sol.riemann(L, R)
        obs.trans()
        if not (np.array_equal(L, L0) and np.array_equal(R, R0)):
            raise Violation('the flux changes its input', word=word)
        return F

    def compare(F, word, what):
        want = np.concatenate([alone[i] for i in word])
        e = impl.err(np.array(F), want, 1 + np.abs(want))
        obs.note_max('locality_error', e)
        if not e <= TOL:
            raise Violation(what, word=word, pairs=[PAIRS[i] for i in word], flux=np.array(F).tolist(), alone=want.tolist())
    if c['kind'] == 'long':
        # every pair at many positions; one interface replaced: only its own flux changes
        for n in c['lengths']:
            w = tuple((i * 5 + i // 14) % 14 for i in range(n))
            compare(call(w), w, 'the flux at an interface depends on the other interfaces or their number')
            obs.state('long', c['flux'], n)
            for j in (0, 1, n // 2, n - 2, n - 1):
                v = w[:j] + ((w[j] + 1) % 14,) + w[j + 1:]
                compare(call(v), v, 'the flux at an interface depends on the other interfaces or their number')
            w = (n % 14,) * n
            compare(call(w), w, 'the flux at an interface depends on the other interfaces or their number')
            # a call on one interface after a long one
            compare(call(w[:1]), w[:1], 'the flux depends on earlier calls')
            obs.trace()
        obs.outcome('long ' + c['flux'])
        return
    if c['kind'] == 'local':
        for n in range(1, c['n'] + 1):
            for w in itertools.product(range(len(PAIRS)), repeat=n - 1):
                w = (c['first'],) + w
                F = call(w)
                obs.state('l', c['flux'], g, w)
                obs.trace()
                compare(F, w, 'the flux at an interface depends on the other interfaces')
        w = tuple(range(c['first'], len(PAIRS))) + tuple(range(c['first']))
        compare(call(w * 3), w * 3, 'the flux at an interface depends on the other interfaces')
        obs.outcome('local ' + c['flux'])
        return
    others = [impl.new('euler', 0, 2, f, gamma=g) for f in impl.FLUXES] if nf == 3 else [s]
    shapes = [lambda i, j: (i,), lambda i, j: (j, i), lambda i, j: (i, j, j)]
    calls = [(k, sh) for k in range(len(others)) for sh in range(len(shapes))]
    for j in range(len(PAIRS)):
        i = c['first']
        for hist in itertools.product(calls, repeat=c['n'] - 1):
            kept = []
            for k, sh in hist:
                F = call(shapes[sh](i, j), others[k])
                kept.append((F, np.array(F)))
            w = (j, i)
            F = call(w)
            kept.append((F, np.array(F)))
            compare(F, w, 'the flux depends on earlier calls')
            compare(call((i, j)), (i, j), 'the flux depends on earlier calls')
            for F, old in kept:
                if not np.array_equal(F, old):
                    raise Violation('a later call changes a flux returned earlier', pairs=[PAIRS[i], PAIRS[j]])
            obs.trace()
            obs.state('h', c['flux'], g, i, j, hist)
    obs.outcome('history ' + c['flux'])
