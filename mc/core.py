"""Bounded-exhaustive exploration driver shared by all checks.

A check module (checks/cNN.py) defines

    ID, LEVEL, RULE       property id, evidence level, one-line description of the enumeration
    BOUNDS                dict tier -> text of the bounds
    cases(tier)           generator of JSON-able cases, simplest first: the complete enumeration
    run_case(case, obs)   executes the real code on one case (possibly exploring a whole state graph
                          below it) and raises Violation when the property does not hold

Every case is executed; nothing is sampled.  The first violating case (in enumeration order) is
written to replays/ and can be run alone with `run.py --replay FILE`.
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DG1D_REPO', '/repo')  # development only; registered commands never set it
OUT = os.environ.get('DG1D_MC_OUT', VERIF)  # development only: where evidence and replays go
CASE_LIMIT_S = 400


class Violation(Exception):
    """The property does not hold on this case"""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class Obs:
    """What the executions of a case covered (and the known findings they hit)"""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = {}
        self.findings = {}
        self.notes = {}

    def state(self, *parts):
        """Record a visited state; returns True if it is new"""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if hasattr(p, 'tobytes'):
                h.update(p.tobytes())
            else:
                h.update(repr(p).encode())
            h.update(b'|')
        k = int.from_bytes(h.digest(), 'little')
        new = k not in self.states
        self.states.add(k)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def ev(self, n=1):
        self.evals += n

    def outcome(self, key, n=1):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def finding(self, key, text):
        self.findings.setdefault(key, text)

    def note_max(self, key, value):
        value = float(value)
        if not value <= self.notes.get(key, -1.0):
            self.notes[key] = value

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.evals += o.evals
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        for k, v in o.notes.items():
            self.note_max(k, v)


_CHECK = None
_SCRATCH = None


def scratch():
    """A private scratch directory of this process (removed by the driver)"""
    return _SCRATCH


def _alarm(*_):
    raise CaseTimeout()


def _init_worker(modname, base):
    global _CHECK, _SCRATCH
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    _SCRATCH = os.path.join(base, 'w%d' % os.getpid())
    os.makedirs(_SCRATCH, exist_ok=True)
    os.chdir(_SCRATCH)
    # the code under test prints a lot
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    _CHECK = importlib.import_module(modname)


def _from_repo(tb):
    """Is the innermost frame of a traceback that is not in a library in the code under test?"""
    last = None
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(os.path.realpath(REPO) + os.sep):
            last = 'repo'
        elif f.startswith(VERIF + os.sep):
            last = 'verif'
    return last == 'repo'


def execute(mod, case, obs):
    """Runs one case; returns None, or ('violation', message, detail), or ('error', text)"""
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        mod.run_case(case, obs)
        return None
    except Violation as v:
        return ('violation', v.msg, v.detail)
    except CaseTimeout:
        return ('violation', 'the code did not finish within %d s' % CASE_LIMIT_S, {})
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        if _from_repo(sys.exc_info()[2]):
            return ('violation', 'the code failed: %s: %s' % (type(e).__name__, e), {'traceback': tb})
        return ('error', tb, {})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(chunk):
    out = []
    obs = Obs()
    for idx, case in chunk:
        r = execute(_CHECK, case, obs)
        if r is not None:
            out.append((idx, case, r))
    return obs, out, len(chunk)


def _chunks(it, n):
    it = enumerate(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def known_findings(pid):
    """Keys of the findings listed for a property in known_findings.txt"""
    keys = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                w = dict(x.split('=', 1) for x in line.split() if '=' in x)
                if w.get('property') == pid:
                    keys[w['key']] = line.strip()
    return keys


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return json.loads(json.dumps(x, default=lambda o: o.tolist() if hasattr(o, 'tolist') else repr(o)))


def write_replay(mod, pid, case, res):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump(jsonable(dict(property=pid, module=mod.__name__, case=case, message=res[1], detail=res[2])), f, indent=1)
    return path


def run_check(modname, tier, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    base = tempfile.mkdtemp(prefix='dg1d-mc-')
    try:
        return _run_check(modname, tier, jobs, t0, seed, base)
    finally:
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)


def _run_check(modname, tier, jobs, t0, seed, base):
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    pid = mod.ID
    jobs = jobs or int(os.environ.get('DG1D_MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    total = Obs()
    samples, bad, errors, ncases = [], [], [], 0

    def tee(it):
        for i, c in enumerate(it):
            if i < 2 or (i & (i - 1)) == 0 and len(samples) < 12:
                samples.append(c)
            yield c
    ctx = mp.get_context('fork')
    pool = ctx.Pool(jobs, _init_worker, (modname, base))
    try:
        chunk = getattr(mod, 'CHUNK', 4)
        for obs, res, n in pool.imap(_work, _chunks(tee(mod.cases(tier)), chunk)):
            total.merge(obs)
            ncases += n
            for r in res:
                (errors if r[2][0] == 'error' else bad).append(r)
            if bad or errors:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    listed = known_findings(pid)
    status = 0
    if errors and not bad:
        print('ERROR in the harness of %s:\n%s\ncase: %s' % (pid, errors[0][2][1], json.dumps(jsonable(errors[0][1]))))
        status = 2
    if bad:
        idx, case, res = bad[0]
        path = write_replay(mod, pid, case, res)
        print('case %d: %s' % (idx, json.dumps(jsonable(case))[:2000]))
        print('%s: %s' % (pid, res[1]))
        for k, v in res[2].items():
            print('  %s: %s' % (k, str(v)[:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1
    for key, text in sorted(total.findings.items()):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, listed[key].split(' ', 3)[-1]))
        else:
            path = write_replay(mod, pid, text[1] if isinstance(text, (list, tuple)) else None,
                                ('violation', str(text), {}))
            print('%s: %s' % (pid, text))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            status = 1
    if not bad and not errors and hasattr(mod, 'vacuity'):
        msg = mod.vacuity(total, ncases, tier)
        if msg:
            print('ERROR: vacuous exploration of %s: %s' % (pid, msg))
            status = status or 2
    complete = not bad and not errors
    top = sorted(total.outcomes.items(), key=lambda kv: -kv[1])
    cov = dict(
        cases=ncases,
        rule=mod.RULE,
        bounds=mod.BOUNDS.get(tier, mod.BOUNDS.get('quick')),
        distinct_outcomes=len(total.outcomes),
        outcomes=dict(top[:40]),
        measured_maxima=total.notes,
        samples=samples,
        exhaustive=complete,
    )
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.traces)
    else:
        cov.update(evaluations=total.evals, distinct_nontrivial=len(total.states))
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=jsonable(cov),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=len(bad))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %d evaluations, %d distinct outcomes, %.1f s%s' % (
        pid, tier, ncases, len(total.states), total.transitions, total.traces, total.evals, len(total.outcomes), wall,
        '' if complete else ' (stopped early)'))
    return status


def replay(path):
    """Runs the one recorded case again, without the explorer"""
    sys.path.insert(0, VERIF)
    rec = json.load(open(path))
    base = tempfile.mkdtemp(prefix='dg1d-mc-')
    global _SCRATCH
    _SCRATCH = base
    signal.signal(signal.SIGALRM, _alarm)
    try:
        mod = importlib.import_module(rec['module'])
        os.chdir(base)
        out = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            results = [execute(mod, rec['case'], Obs()) for _ in range(2)]
        finally:
            sys.stdout.flush()
            os.dup2(out, 1)
    finally:
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)
    if (results[0] is None) != (results[1] is None) or results[0] and results[0][1] != results[1][1]:
        print('NOT REPRODUCIBLE', results)
        return 2
    if results[0] is None:
        print('the case passes')
        return 0
    print(results[0][1])
    for k, v in results[0][2].items():
        print('  %s: %s' % (k, v))
    return 1
