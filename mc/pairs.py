"""Grids of Riemann problems shared by the flux checks"""
import itertools

GAMMAS = (1.4, 5 / 3., 3.)
RARE = (1.05, 1.1, 1.2, 1.3, 2., 2.5, 4., 7.)


def wide(tier):
    if tier == 'quick':
        return list(itertools.product([.125, 1., 6.], [-20., -3., -.75, 0., .75, 3., 20.], [.01, .1, 1., 10., 500.]))
    return list(itertools.product([.05, .125, .5, 1., 2., 6., 20.], [-20., -8., -3., -1.5, -.75, -.2, 0., .2, .75, 1.5, 3., 8., 20.],
                                  [.01, .05, .1, .4, 1., 3., 10., 100., 500., 1000.]))


def fine(tier):
    if tier == 'quick':
        return list(itertools.product([.5, 1., 2.], [round(-2.4 + .3 * i, 3) for i in range(17)], [.4, 1., 2.5]))
    return list(itertools.product([.25, .5, 1., 2., 4.], [round(-4 + .2 * i, 3) for i in range(41)], [.2, .4, 1., 2.5]))


def coarse(tier):
    return list(itertools.product([.3, 1., 4.], [-4., -2.1, -1.2, -.4, 0., .7, 1.5, 2.8, 6.], [.1, .5, 3.]))


def cases(tier):
    for g in GAMMAS if tier == 'quick' else (1.2,) + GAMMAS + (2.0,):
        for which in ('fine', 'wide'):
            for i in range(len(fine(tier) if which == 'fine' else wide(tier))):
                yield dict(gamma=g, grid=which, left=i, tier=tier)
    for g in RARE:
        for i in range(len(coarse(tier))):
            yield dict(gamma=g, grid='coarse', left=i, tier=tier)


_C = {}


def lists(case):
    k = (case['grid'], case['tier'])
    if k not in _C:
        _C[k] = dict(fine=fine, wide=wide, coarse=coarse)[case['grid']](case['tier'])
    return _C[k][case['left']], _C[k]
