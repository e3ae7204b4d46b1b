"""C26 a run computes what its deck asks for"""
import contextlib
import itertools
import os
import runpy
import subprocess
import shutil
import sys

import numpy as np

from mc import cli, core, impl, ref
from mc.core import Violation

ID = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of decks up to pairs of deviating options, run by the real program, against a reference solver'
RULE = ('decks: the base deck of each system, every deviation in one option and every combination of deviations in two options (system and initial '
        'condition, order, integrator, flux, limiter and thresholds, enhancement, CFL number, final time, outputs, cells), sections in rotated '
        'order, defaults by omission; the files written must be those of an independent reference solver; decks with one deviation run as a '
        'process of their own, all run again in one process, twice')
BOUNDS = {
    'quick': 'all pairs of deviations from 5 base decks (about 1600 decks), 5-8 cells (20-24 for the strong states), 2-5 outputs; 110 decks as processes; 47 further decks with up to 129 cells, hundreds of steps, 101 outputs, orders up to 7',
    'thorough': 'all triples of deviations',
}
CHUNK = 2

AXES = {
    'advection': dict(
        ic=['sinewave', 'ictest'], order=[1, 0, 2, 3], rk=['rk4', 'low_storage_rk4', 'rk3', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14', 'rk7', None],
        riemann=[None, 'rusanov'], lim=['', ('adaptive_hr', [-1.]), ('adaptive_hr', [.35]), ('', [.35])], enhance=['', 'icb 0', 'icb 1 0', None],
        cfl=[.4, .15, None], finaltime=[.3, .7], nout=[3, 2, 5], N=[6, 5, 8]),
    'euler': dict(
        ic=['entrpyw', 'scktube', 'acsticw'], order=[1, 0, 2, 3],
        rk=['rk4', 'low_storage_rk4', 'rk3', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14', 'rk7', None],
        riemann=['roe', 'rusanov', 'godunov', None, 'hllc'],
        lim=['', ('adaptive_hr', [-1., 2.]), ('adaptive_hr', [.1, .05]), ('', [.1, .05])], enhance=['', 'icb 0', 'icb 1 0', None], cfl=[.3, .1, None],
        finaltime=[.1, .25], nout=[3, 2, 5], N=[6, 5, 8]),
}
# base decks with limiting, and with the harder initial states at order 0
AXES['euler limited'] = dict(AXES['euler'], ic=['scktube', 'entrpyw'], riemann=['rusanov', 'roe', 'godunov'],
                             lim=[('adaptive_hr', [.1, .05]), ('adaptive_hr', [-1., 2.]), ('adaptive_hr', [.02, .2]), ''])
AXES['advection limited'] = dict(AXES['advection'], lim=[('adaptive_hr', [.35]), ('adaptive_hr', [-1.]), ('adaptive_hr', [.2])], order=[2, 1, 3, 0])
AXES['euler strong'] = dict(AXES['euler'], ic=['simplew', 'shuoshe'], order=[0, 1], riemann=['roe', 'rusanov', None], lim=['', ('adaptive_hr', [-1., 2.])],
                            rk=['rk3', 'low_storage_rk4', 'rk4'], enhance=[''], N=[24, 20])
TUBE = '%d 0.1 1 0.2 1 0.6 -0.1 0.5'
FIELDS = dict(advection=['u'], euler=['rho', 'rhou', 'E'])


def decks(depth):
    for system in AXES:
        ax = AXES[system]
        names = list(ax)
        for d in range(depth + 1):
            for which in itertools.combinations(names, d):
                for vals in itertools.product(*[range(1, len(ax[x])) for x in which]):
                    o = {x: 0 for x in names}
                    o.update(zip(which, vals))
                    yield system, o, d


# beyond the alphabets: many cells, many steps, many outputs, high order, low CFL numbers, late end
EXTRA = [
    ('advection', dict(N=100, finaltime=.1)), ('advection', dict(N=64, order=2, finaltime=.05)), ('advection', dict(N=33, rk='low_storage_rk4', finaltime=.2)),
    ('advection', dict(N=10, finaltime=4., cfl=.5)), ('advection', dict(N=10, nout=41, finaltime=2.)), ('advection', dict(N=7, nout=101, finaltime=1.)),
    ('advection', dict(N=6, order=5, rk='rk8')), ('advection', dict(N=5, order=7, rk='rk14')), ('advection', dict(N=6, order=6, rk='rk3')),
    ('advection', dict(N=1)), ('advection', dict(N=2)), ('advection', dict(N=3, order=4)), ('advection', dict(N=12, cfl=1., order=0)),
    ('advection', dict(N=8, cfl=.01, finaltime=.05)), ('advection', dict(N=129, order=0, finaltime=.1)), ('advection', dict(N=6, finaltime=1e-3)),
    ('advection', dict(N=6, ic='ictest', order=4, enhance='icb 0 1 2')), ('advection', dict(N=6, order=3, enhance='icb 2 0 1')),
    ('advection', dict(N=6, order=2, enhance='icb 2')), ('advection', dict(N=40, lim=('adaptive_hr', [.2]), order=2, finaltime=.05)),
    ('advection', dict(N=101, lim=('adaptive_hr', [.1]), order=1, finaltime=.05)), ('advection', dict(N=20, lim=('adaptive_hr', [.35]), order=4, finaltime=.1)),
    ('euler', dict(N=100, finaltime=.02)), ('euler', dict(N=64, order=2, finaltime=.01, riemann='rusanov')), ('euler', dict(N=33, rk='low_storage_rk4', finaltime=.05)),
    ('euler', dict(N=10, finaltime=1., cfl=.4)), ('euler', dict(N=10, nout=41, finaltime=.4)), ('euler', dict(N=7, nout=101, finaltime=.2)),
    ('euler', dict(N=6, order=5, rk='rk8')), ('euler', dict(N=5, order=4, rk='rk14', finaltime=.02)), ('euler', dict(N=1)), ('euler', dict(N=2)),
    ('euler', dict(N=16, cfl=.05, finaltime=.05)), ('euler', dict(N=6, finaltime=1e-3)), ('euler', dict(N=6, order=3, enhance='icb 2 0 1')),
    ('euler', dict(N=6, order=2, enhance='icb 2')), ('euler limited', dict(N=100, order=1, finaltime=.05)), ('euler limited', dict(N=40, order=2, finaltime=.05)),
    ('euler limited', dict(N=33, order=3, finaltime=.02, riemann='roe')), ('euler limited', dict(N=64, order=1, finaltime=.02, riemann='godunov')),
    ('euler limited', dict(N=20, order=1, finaltime=.5, rk='rk3')), ('euler limited', dict(N=20, order=1, finaltime=.3, nout=21)),
    ('euler strong', dict(N=100, finaltime=.02)), ('euler strong', dict(N=64, ic='shuoshe', finaltime=.1)), ('euler strong', dict(N=50, ic='shuoshe', finaltime=.05, riemann='rusanov')),
    ('euler', dict(N=50, ic='acsticw', finaltime=.1)), ('euler', dict(N=31, ic='acsticw', order=3, finaltime=.05, rk='rk6')),
]


def cases(tier):
    for i, (system, o) in enumerate(EXTRA):
        yield dict(system=system, index={}, options=o, dev=2 if i % 3 else 1, i=i)
    for i, (system, o, d) in enumerate(decks(2 if tier == 'quick' else 3)):
        yield dict(system=system, index=o, dev=d, i=i)


def options(c):
    ax = AXES[c['system']]
    o = {x: ax[x][c['index'].get(x, 0)] for x in ax}
    o.update(c.get('options', {}))
    o['lim'] = tuple(o['lim']) if isinstance(o['lim'], list) else o['lim']
    o['system'] = c['system'].split()[0]
    if o['order'] == 0 and o['enhance'] == 'icb 1 0':
        o['enhance'] = 'icb 0'
    return o


def text(o, i):
    lim, thr = o['lim'] if isinstance(o['lim'], tuple) else (o['lim'], None)
    ic = TUBE % o['N'] if o['ic'] == 'scktube' else '%d' % o['N']
    sec = dict(system=o['system'], rk=o['rk'], riemann=o['riemann'], ic='%s %s' % (o['ic'], ic), nout=o['nout'], finaltime=o['finaltime'], cfl=o['cfl'],
               order=o['order'], limiting=lim or None, enhance=o['enhance'] or None, thresholds=' '.join(map(str, thr)) if thr else None)
    sec = [(k, v) for k, v in sec.items() if v is not None]
    if i % 2:
        sec.reverse()
    sec = sec[i % len(sec):] + sec[:i % len(sec)]
    return cli.deck(**dict(sec))


def simulate(o, nudge=0.):
    """The documented method on the options of a deck (nudge: relative changes of the initial data)"""
    system, p, N = o['system'], o['order'], o['N']
    lim, thr = o['lim'] if isinstance(o['lim'], tuple) else (o['lim'], None)
    params = (TUBE % N).split() if o['ic'] == 'scktube' else [N]
    A, B, f, bc, g = ref.initial(o['ic'], params, system)
    dx = (B - A) / N
    a = np.zeros((p + 1, N, 3 if system == 'euler' else 1))
    for e in range(N):
        a[:, e] = ref.project(f, A + dx * e, A + dx * (e + 1), p)
    if nudge:
        a = a * (1 + nudge * np.sin(np.arange(a.size)**2 + 1.).reshape(a.shape)) + nudge * np.cos(np.arange(a.size)).reshape(a.shape)
    flux = ref.flux_function(system, o['riemann'], g)
    modes = [int(x) for x in o['enhance'].split()[1:]] if o['enhance'] else None
    rkname = o['rk'] if o['rk'] in impl.SCHEMES else 'rk4'
    table = impl.table(rkname)
    cfl = .5 if o['cfl'] is None else o['cfl']
    margins, flags = [], [0] * (N + 2)

    def limit(a):
        return ref.limit(a, bc, system, thr, g, margins, flags) if lim else a

    def rhs(t, a):
        return ref.dg_rhs(a, dx, system, flux, g, bc, modes)
    a = limit(a)
    t, n = 0.0, 0
    out = [(0, 0., a, list(flags))]
    touts = np.linspace(0, o['finaltime'], o['nout'])
    tight = 1.
    for tout in touts[1:]:
        while t < tout:
            h = cfl * dx / ((2 * p + 1) * ref.max_speed(system, a, g))
            if not h > 1e-12:
                return None, None, None
            tight = min(tight, abs(h - (tout - t)) / h)
            last = h > tout - t
            dt = tout - t if last else h
            a = ref.rk_step(a, dt, t, table, rhs, limit if lim else None)
            # the last limiting is that of the new state
            t = tout if last else t + dt
            n += 1
            if n > 2000:
                return None, None, None
        out.append((n, t, a, list(flags)))
    return out, margins, tight


def in_process(deck, where, way=0):
    """main.py in this process: with -d, without, and (if way is positive) with a deck in another directory"""
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where + '/run')
    os.makedirs(where + '/bin')
    with open(where + '/bin/git', 'w') as f:
        f.write(cli.GIT)
    os.chmod(where + '/bin/git', 0o755)
    with open(where + '/run/deck.inp', 'w') as f:
        f.write(deck)
    cwd, argv, path, syspath = os.getcwd(), sys.argv, os.environ.get('PATH', ''), list(sys.path)
    results = []
    try:
        os.chdir(where + '/run')
        os.environ['PATH'] = where + '/bin:' + path
        for k in range(3 if way else 2):
            # git answers, or fails (as it does outside of a repository), or is not there
            with open(where + '/bin/git', 'w') as f:
                f.write(cli.GIT if k == 0 else cli.NOGIT)
            if k == 2:
                os.environ['PATH'] = where + '/none'
            sys.argv = ['main.py'] + (['-d', 'deck.inp'] if k == 0 else [])
            if k == 2:
                os.makedirs(where + '/decks/a b')
                os.mkdir(where + '/elsewhere')
                with open(where + '/decks/a b/other.txt', 'w') as f:
                    f.write(deck)
                os.chdir(where + '/elsewhere')
                # the default deck is not the one that is asked for
                with open('deck.inp', 'w') as f:
                    f.write('#PDE system\nadvection\n#initial condition\nsinewave 3\n#order\n1\n#number of outputs\n3\n#final time\n.1\n')
                sys.argv = ['main.py', '--deck' if way == 3 else '-d', ('../decks/a b/' if way == 1 else where + '/decks/a b/') + 'other.txt']
            status = 0
            try:
                runpy.run_path(core.REPO + '/dg1d/main.py', run_name='__main__')
            except SystemExit as e:
                status = e.code
            except (OSError, subprocess.CalledProcessError) as e:
                status = 'run %d (%s): %s' % (k + 1, ('git answers', 'git fails', 'git is not there')[k], e)
            results.append((status, {x: open(x).read() for x in sorted(os.listdir('.')) if x != 'deck.inp'}))
        if way and (os.listdir(where + '/decks/a b') != ['other.txt'] or os.listdir(where + '/decks') != ['a b']):
            raise Violation('files are written next to the deck: %s' % sorted(os.listdir(where + '/decks/a b') + os.listdir(where + '/decks')), deck=deck)
    finally:
        os.chdir(cwd)
        sys.argv, os.environ['PATH'], sys.path[:] = argv, path, syspath
    return results


def parse(content):
    lines = content.splitlines()
    w = lines[0].lstrip('# ').replace('=', ',').split(',')
    head = dict(n=int(w[1]), t=float(w[3]), bc=(w[5].strip(), w[7].strip()))
    return head, np.array([[float(x) for x in l.split(',')] for l in lines if not l.startswith('#')])


def compare(files, o, want, margins, tight, obs, how, deck):
    system, p, N = o['system'], o['order'], o['N']
    lim, thr = o['lim'] if isinstance(o['lim'], tuple) else (o['lim'], None)
    names = FIELDS[system] + (['sensor'] if thr else [])
    expected = sorted('%s%010d.dat' % (f, k) for f in names for k in range(o['nout']))
    if sorted(files) != expected:
        raise Violation('the files written are %s instead of %s (%s)' % (sorted(files), expected, how), deck=deck)
    # a step that ends exactly on an output time may be followed by one of length zero, which limits again
    knife = lim and margins and (min(abs(m) for m in margins) < 1e-6 or tight < 1e-9)
    if knife:
        obs.outcome('knife-edge sensors, values not compared')
    tol = 1e-10 * {'rk14': 1e5, 'rk12': 1e3, 'rk10': 10}.get(o['rk'], 1)
    if o['riemann'] == 'godunov':
        tol = 3e-5
    for k, (n, t, a, flags) in enumerate(want):
        sc = 1 + np.max(np.abs(a))
        for i, f in enumerate(names):
            head, data = parse(files['%s%010d.dat' % (f, k)])
            if abs(head['t'] - t) > 1e-12 or head['n'] != n and tight > 1e-9 and not knife and o['riemann'] != 'godunov':
                raise Violation('output %d is at time %.17g after %d steps instead of %.17g after %d (%s)' % (k, head['t'], head['n'], t, n, how), deck=deck)
            if knife:
                continue
            if f == 'sensor':
                got = [int(x) for x in data[:, 1]]
                if got != (flags[1:-1] if lim else [0] * N):
                    raise Violation('the sensor file of output %d has the flags %s instead of %s (%s)' % (k, got, flags[1:-1], how), deck=deck)
                continue
            if data.shape != (N, p + 2):
                raise Violation('a file has %s numbers instead of %s (%s)' % (data.shape, (N, p + 2), how), deck=deck)
            e = impl.err(data[:, 1:].T, a[:, :, i], sc)
            obs.note_max('error_' + ('godunov' if o['riemann'] == 'godunov' else str(o['rk'])), e)
            if not e <= tol:
                # some limited solutions amplify rounding errors enormously: is this one of them?
                other = simulate(o, 1e-13)[0]
                if other is not None and len(other) > k and e <= 3 * impl.err(other[k][2], a, sc) and e < 1e-4:
                    obs.outcome('amplifies rounding errors, values not compared')
                    return
                raise Violation('%s of output %d differs from the documented method by %.3g (%s)' % (f, k, e, how), deck=deck, got=data[:, 1:].T.tolist(),
                                expected=a[:, :, i].tolist())


def run_case(c, obs):
    o = options(c)
    deck = text(o, c['i'])
    try:
        want, margins, tight = simulate(o)
    except ValueError:  # a negative pressure
        want = None
    if want is None or not all(np.all(np.isfinite(x[2])) for x in want):
        obs.outcome('the reference breaks down, skipped %s' % o['ic'])
        return
    where = core.scratch() + '/deck'
    first = None
    for k, (status, files) in enumerate(in_process(deck, where, (0, 1, 0, 2, 0, 3)[c['i'] % 6])):
        if status:
            raise Violation('the program stopped: %s' % status, deck=deck)
        compare(files, o, want, margins, tight, obs, 'in process, run %d' % (k + 1), deck)
        if first is not None and files != first:
            raise Violation('running again gives other files', deck=deck)
        first = files
        obs.trace()
        obs.trans(want[-1][0])
    if c['dev'] < 2:
        status, files, output = cli.run(deck, where, git=c['i'] % 2 == 0)
        if status:
            raise Violation('the program exits with status %s' % status, deck=deck, output=output[-2000:])
        compare(files, o, want, margins, tight, obs, 'as a process', deck)
        if files != first:
            raise Violation('running as a process gives other files', deck=deck)
        obs.trace()
        obs.trans(want[-1][0])
        obs.outcome('process')
    obs.state(deck)
    for x in want:
        obs.state(x[2])
    obs.outcome('%s %s %s' % (c['system'], o['ic'], 'limited' if margins else ''))
