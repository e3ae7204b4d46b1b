"""C33 the plot tools draw the stored solution"""
import itertools
import os
import runpy
import sys

import numpy as np

from mc import core, impl, ref, space
from mc.core import Violation

ID = 'C33'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of stored solutions shown by the real plot programs, whose drawn points are compared with an independent evaluation'
RULE = ('every combination of program, system, order, number of cells, output number, with and without sensors: the real program runs on files written '
        'by the real code, and the points of its figures are compared with an independent evaluation of the solution that was written.  '
        'Non-trivial: distinct (program, configuration)')
BOUNDS = {
    'quick': 'both programs; orders 0-4; 2, 3, 4, 7, 16 and 33 cells; outputs 0, 1, 12 and 1234567890; with and without sensors; gases 1e9 and 1e4 times thinner and 1e6 times denser',
    'thorough': 'orders 0-8, 2-12, 33, 64, 100 and 129 cells',
}
ASSUMPTIONS = ['pictures are not rendered (no LaTeX here): the data given to the drawing library is compared', 'ratio of specific heats 1.4, as the programs assume']
CHUNK = 4
TOL = 1e-12


def cases(tier):
    quick = tier == 'quick'
    ns = (2, 3, 4, 7, 16, 33) if quick else tuple(range(2, 13)) + (33, 64, 100, 129)
    for n, p in itertools.product(ns, range(5 if quick else 9)):
        for sensors in (False, True):
            for nout in (0, 1, 12) if not sensors else (0, 1, 1234567890):
                yield dict(tool='plot', system='advection', p=p, N=n, nout=nout, sensors=sensors)
                yield dict(tool='plot', system='euler', p=p, N=n, nout=nout, sensors=sensors)
                yield dict(tool='regressions', system='euler', p=p, N=n, nout=nout, sensors=sensors)
        for tool in ('plot', 'regressions'):
            for scale in (1e-9, 1e-4, 1e6):
                yield dict(tool=tool, system='euler', p=p, N=n, nout=3, sensors=False, scale=scale)


def stored(c, d):
    """Writes a solution with the code under test; returns its interior, edges and sensors"""
    s = space.build(dict(system=c['system'], p=c['p'], size=c['N'], half=1))
    t = impl.solution.Solution(('sinewave %d' if c['system'] == 'advection' else 'entrpyw %d') % c['N'], c['system'], c['p'], 'roe', '',
                               [.1, .1] if c['sensors'] else [])
    t.u = np.array(s.u) * c.get('scale', 1.)
    t.apply_bc()
    if c['sensors']:
        t.sensors.sensors[:] = [(i * 7 + i // 3) % 3 for i in range(c['N'] + 2)]
    os.chdir(d)
    # an older output, which must not be shown instead
    other = t.copy()
    other.u = other.u * 1.5
    if c['sensors']:
        other.sensors.sensors[:] = 0
    other.printer(c['nout'] + 1, 0.)
    if c['nout']:
        other.printer(0, 0.)
    t.printer(c['nout'], 0.)
    return impl.interior(t), np.linspace(-1, 1, c['N'] + 1), [int(v) for v in t.sensors.sensors[1:-1]] if c['sensors'] else None


def run_tool(c, d):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    keep, argv, path = plt.savefig, sys.argv, list(sys.path)
    plt.savefig = lambda *a, **k: None
    try:
        if c['tool'] == 'plot':
            sys.argv = ['plot.py', '-f', str(c['nout']), '-t', c['system']]
            os.chdir(d)
            runpy.run_path(os.path.join(core.REPO, 'dg1d', 'plot.py'), run_name='__main__')
        else:
            sys.argv = ['plot.py', '-f', str(c['nout']), '-d', d]
            os.chdir(core.scratch())
            runpy.run_path(os.path.join(core.REPO, 'regressions', 'plot.py'), run_name='__main__')
    except SystemExit as e:
        raise Violation('the plot program stopped: %s' % e)
    finally:
        plt.savefig, sys.argv, sys.path[:] = keep, argv, path
        os.chdir(core.scratch())
    figs = {}
    for k in plt.get_fignums():
        pts = {}
        for ax in plt.figure(k).axes:
            for l in ax.lines:
                m = str(l.get_marker())
                pts.setdefault(m if m in ('o', 's') else 'line', []).append(np.array([np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)]))
        figs[k] = {m: np.concatenate(v, axis=1) for m, v in pts.items()}
    plt.close('all')
    return figs


def same(got, want, what, c, obs):
    want = np.array(want, float).reshape(2, -1)
    if got is None or got.shape != want.shape:
        raise Violation('%s: %s points are drawn instead of %d' % (what, None if got is None else got.shape[1], want.shape[1]), configuration=c)
    # the order in which points are drawn does not matter
    a, b = got[:, np.lexsort(np.round(got[::-1], 9))], want[:, np.lexsort(np.round(want[::-1], 9))]
    e = impl.err(a, b, 1 + np.max(np.abs(want), axis=1, keepdims=True) if want.size else 1.)
    obs.ev()
    obs.note_max('difference', e)
    if not e <= TOL:
        raise Violation('%s: the drawn points are not those of the stored solution' % what, configuration=c, drawn=a.tolist(), stored=b.tolist())


def run_case(c, obs):
    import shutil
    d = os.path.join(core.scratch(), 'plot')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        u, x, sensors = stored(c, d)
        if c['tool'] == 'regressions':
            np.savetxt(os.path.join(d, 'exact.txt'), np.array([np.linspace(-1, 1, 9)] + [np.linspace(k, k + 1, 9)**2 for k in range(3)]).T, delimiter=',')
        figs = run_tool(c, d)
    finally:
        os.chdir(core.scratch())
        shutil.rmtree(d, ignore_errors=True)
    obs.state(sorted(c.items()))
    n, nf = c['N'], u.shape[2]
    expect = nf + bool(sensors is not None)
    if sorted(figs) != list(range(expect)):
        raise Violation('figures %s are drawn instead of %d' % (sorted(figs), expect), configuration=c)
    centers = .5 * (x[1:] + x[:-1])

    def primitive(v):
        if nf == 1:
            return v
        r, w, p = ref.prim(v, 1.4)
        return np.stack([r, w, p], -1)
    if c['tool'] == 'plot':
        xg, _ = ref.gauss(c['p'] + 1)
        V = primitive(np.einsum('mef,mg->egf', u, np.array([ref.P(m, xg) for m in range(c['p'] + 1)])))
        F = primitive(np.einsum('mef,mg->egf', u, np.array([[(-1.)**m, 1.] for m in range(c['p'] + 1)])))
        pos = (centers[:, None] + .5 * (x[1:] - x[:-1])[:, None] * xg[None]).ravel()
        for f in range(nf):
            same(figs[f].get('o'), [pos, V[:, :, f].ravel()], 'field %d at the quadrature points' % f, c, obs)
            same(figs[f].get('s'), [np.stack([x[:-1], x[1:]], 1).ravel(), F[:, :, f].ravel()], 'field %d at the cell ends' % f, c, obs)
        if nf == 1:
            line = figs[0].get('line')
            if line is None or not impl.err(line[1], np.sin(2 * np.pi * line[0])) <= TOL:
                raise Violation('the exact solution drawn is not the sine wave', configuration=c)
    else:
        V = primitive(u[0])
        for f in range(3):
            same(figs[f].get('o'), [centers, V[:, f]], 'field %d' % f, c, obs)
            same(figs[f].get('line'), [np.linspace(-1, 1, 9), np.linspace(f, f + 1, 9)**2], 'exact solution of field %d' % f, c, obs)
    if sensors is not None:
        same(figs[nf].get('o'), [centers, sensors], 'sensors', c, obs)
    obs.outcome('%s %s%s' % (c['tool'], c['system'], ' sensors' if sensors is not None else ''))
