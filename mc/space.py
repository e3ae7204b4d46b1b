"""Alphabets and configuration spaces shared by the checks"""
import itertools
import math

from mc import impl

# higher modes are cut at the order in use, so one letter serves every order
def _tail(modes, first, size):
    """Small modes from number `first` to 12"""
    return [modes[0]] + modes[1:] + [size * (-1)**(m // 2) / (1 + m % 3) for m in range(max(first, len(modes)), 13)] if len(modes) > 1 else modes


ADV = [
    [[0.0]],
    [[1.0, 0.5, -0.25, 0.125, 0.3, -0.2, 0.1]],
    [[-0.7, -0.9, 0.4, -0.3, 0.2, 0.1, -0.05]],
    [[0.3, 1.0, 0.6, 0.5, -0.4, 0.2, 0.1]],
    [[2.0, -0.2, 0.0, 0.7, 0.0, -0.1, 0.2]],
]


ADV = [[_tail(m, 7, .04) for m in cell] for cell in ADV]


def _e(rho, u, p, pr, pm, pe):
    c = impl.conserved(rho, u, p)
    return [_tail([c[0]] + pr, 4, .002), _tail([c[1]] + pm, 4, -.003), _tail([c[2]] + pe, 4, .004)]


EULER = [
    _e(1.0, 0.0, 1.0, [], [], []),
    _e(1.4, 0.4, 0.7, [0.1, -0.05, 0.02, 0.01], [-0.1, 0.05, -0.02, 0.01], [0.05, 0.1, -0.03, 0.01]),
    _e(0.6, -0.5, 1.2, [-0.04, 0.03, 0.02, -0.01], [0.06, 0.04, 0.01, 0.02], [-0.1, 0.05, 0.04, -0.02]),
    _e(1.0, 2.0, 0.9, [0.05, 0.03, -0.04, 0.02], [0.1, 0.05, 0.02, -0.03], [0.2, -0.1, 0.05, 0.03]),
    _e(1.2, -1.9, 1.1, [0.02, -0.06, 0.03, 0.01], [0.05, 0.1, -0.04, 0.02], [-0.1, 0.15, -0.02, 0.03]),
]

# gentle letters for enhanced reconstructions, which extrapolate
EULER_SOFT = [
    _e(1.0, 0.1, 1.0, [], [], []),
    _e(1.1, 0.2, 0.9, [0.03, -0.02, 0.01], [-0.03, 0.02, -0.01], [0.02, 0.03, -0.01]),
    _e(0.95, -0.1, 1.05, [-0.02, 0.01, 0.01], [0.02, 0.02, 0.01], [-0.03, 0.02, 0.02]),
]


def letters(system, enh, k):
    if system != 'euler':
        return ADV[:k]
    return (EULER_SOFT if enh else EULER)[:k]


def cells(system, enh, word, vary=0):
    """Cell data of a word; with `vary` every cell differs a little from all others (position dependent factor)"""
    al = letters(system, enh, 9)
    if not vary:
        return [al[i] for i in word]
    return [[[v * (1 + vary * math.sin(1 + 0.7 * e + 1.3 * m + 2.1 * f)) for m, v in enumerate(modes)]
             for f, modes in enumerate(al[i])] for e, i in enumerate(word)]


def debruijn(k=3, n=3):
    """Cyclic word of length k**n with every word of length n exactly once as a factor"""
    a, out = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def long_word(n, k=3):
    """Word of n cells out of the periodic repetition of a de Bruijn word: every neighbourhood of three cells
    occurs (from 29 cells on), at many positions"""
    d = debruijn(k, 3)
    return [d[i % len(d)] for i in range(n)]


# numbers of cells of the size sweeps: all small ones, and around powers of two, round numbers and block sizes
SIZES = list(range(4, 22)) + [24, 25, 26, 30, 31, 32, 33, 40, 47, 48, 49, 50, 51, 63, 64, 65, 66, 80, 96, 99, 100, 101, 127,
                              128, 129, 150, 199, 200, 201, 255, 256, 257, 300]
SIZES_FEW = [7, 16, 33, 64, 100, 129, 257]
SIZES_VAST = [2000, 2047, 2048, 2049, 4097]
SIZES_HUGE = [499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]


def build(c):
    """A solution from a configuration: dict(system, p, word or size, vary, soft, flux, enh, thr, bc, half, gamma)"""
    if 'size' in c:
        c = dict(c, word=long_word(c['size']), vary=c.get('vary', 0.04), soft=True)
    s = impl.new(c['system'], c['p'], len(c['word']), c.get('flux', 'roe'), c.get('enh', ''), tuple(c.get('thr', ())),
                 tuple(c.get('bc', ('periodic', 'periodic'))), c.get('gamma', 1.4), c.get('half', 1))
    return impl.fill(s, cells(c['system'], c.get('enh', '') or c.get('soft'), c['word'], c.get('vary', 0)))


def enhancements(p, level=1):
    """'' and the enhancements explored at order p"""
    out = ['', 'icb 0']
    if p >= 1:
        out += ['icb 0 1']
        if level > 1:
            out += ['icb 1']
    return out


HIGH = (4, 5, 6, 7, 8, 9, 12)


def high(fluxes=impl.FLUXES, schemes=('rk4', 'low_storage_rk4'), limiters=('', 'some'), orders=HIGH):
    """Options of runs at high orders; hierarchical reconstruction amplifies rough data at orders above 4, beyond what Euler
    states allow"""
    for c in configs(orders, schemes, limiters, fluxes=fluxes):
        if not c['enh'] and not (c['lim'] and c['p'] > (4 if c['system'] == 'euler' else 5)):
            yield dict(c, soft=True)


LIMIT_ALL = [-1.0, -1.0]
LIMIT_SOME = dict(advection=[0.487], euler=[0.35, 0.1])


def configs(orders, schemes, limiters=('', 'all', 'some'), level=1, fluxes=impl.FLUXES):
    """All combinations of the options of a run"""
    for p, rkname in itertools.product(orders, schemes):
        for enh, lim in itertools.product(enhancements(p, level), limiters):
            base = dict(p=p, rk=rkname, enh=enh, lim='adaptive_hr' if lim else '')
            for system, fl in [('advection', '')] + [('euler', fl) for fl in fluxes]:
                thr = {'': [], 'all': LIMIT_ALL, 'some': LIMIT_SOME[system]}[lim]
                yield dict(base, thr=thr, system=system, flux=fl)
