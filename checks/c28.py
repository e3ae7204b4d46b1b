"""C28 creating an output directory is safe under concurrency"""
import itertools
import os
import shutil
import stat
import threading

from mc import core, impl
from mc.core import Violation

ID = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking: all interleavings of the file-system operations of real concurrent calls under a controlled scheduler'
RULE = ('every file-system operation of helpers.makedir is a scheduling point of a cooperative scheduler; for every combination of requests of the '
        'threads and every initial directory tree all interleavings are explored depth first (executions that reach the same directory tree with '
        'the same results seen by every thread are continued once)')
BOUNDS = {
    'quick': '2 threads x all pairs of 7 requests, 3 threads x 25 combinations, 4 threads x the same request, 5 initial trees, no preemption bound; 12 requests x 9 obstacles, 4 masks',
    'thorough': '2 threads x all pairs of 12 requests, 3 threads x all triples of 7 requests, 4 threads x 6 combinations, 5 threads x the same request',
}
CHUNK = 1
OPS = ['mkdir', 'stat', 'lstat', 'access', 'rmdir', 'listdir', 'scandir', 'rename', 'open', 'chmod', 'unlink', 'readlink']
REQUESTS = ['a', 'a/b', 'a/b/c', 'a/d', 'e', './a/b/', 'a/../a/b', 'a/b/c/d', 'ABS/a/b', 'e//f', '.', 'a/']
TREES = [[], ['a'], ['a/b'], ['a/b/c', 'e'], ['a/d']]
REAL = {k: getattr(os, k) for k in OPS}
STEP_LIMIT = 400


def cases(tier):
    quick = tier == 'quick'
    k = 7 if quick else 12
    for t in range(len(TREES)):
        for r in range(len(REQUESTS)):
            yield dict(tree=t, requests=[r])
        for i, j in itertools.combinations_with_replacement(range(k), 2):
            yield dict(tree=t, requests=[i, j])
    triples = list(itertools.combinations_with_replacement(range(7), 3))
    if quick:
        triples = [(0, 0, 0), (1, 1, 1), (2, 2, 2), (0, 1, 2), (1, 2, 3), (1, 1, 2), (0, 2, 2), (2, 3, 4), (1, 3, 5), (0, 0, 2), (5, 5, 2), (1, 5, 6)]
    for t in (0, 1) if quick else range(len(TREES)):
        for r in triples:
            yield dict(tree=t, requests=list(r))
    for r in [(0, 0, 0, 0), (1, 1, 1, 1)] + ([] if quick else [(0, 1, 2, 3), (1, 1, 2, 2), (2, 2, 2, 2), (0, 0, 1, 2), (0, 0, 0, 0, 0)]):
        yield dict(tree=0, requests=list(r))


OBSTACLES = [[('file', 'a')], [('link', 'a', 'nowhere')], [('link', 'a', 't'), ('dir', 't')], [('dir', 'a'), ('file', 'a/b')], [('dir', 'a'), ('link', 'a/b', '../x/y')],
             [('dir', 'a/b'), ('link', 'e', 'a/b')], [('link', 'a', 'a')], [('link', 'a', 't'), ('file', 't')], [('dir', 'a'), ('link', 'a/b', '.')]]


class Abort(BaseException):
    pass


class Thread:
    """One call of makedir; it stops before every file-system operation"""

    def __init__(self, run, name, path):
        self.run, self.name, self.path = run, name, path
        self.go = threading.Semaphore(0)
        self.history = []
        self.pending = None
        self.done = False
        self.error = None
        self.th = threading.Thread(target=self.main, daemon=True)
        self.ident = None

    def main(self):
        self.ident = threading.get_ident()
        self.run.by_ident[self.ident] = self
        self.go.acquire()
        try:
            if not self.run.abort:
                impl.helpers.makedir(self.path)
        except Abort:
            pass
        except BaseException as e:  # noqa: B902 what the caller would get
            self.error = e
        self.done = True
        self.run.back.release()

    def point(self, op, real, args, kwargs):
        self.pending = (op,) + tuple(str(a) for a in args)
        self.run.back.release()
        self.go.acquire()
        if self.run.abort:
            raise Abort()
        try:
            r = real(*args, **kwargs)
            seen = r if isinstance(r, (bool, type(None))) else ('dir' if stat.S_ISDIR(r.st_mode) else 'file') if hasattr(r, 'st_mode') else \
                sorted(r) if isinstance(r, list) else 'ok'
            self.history.append(self.pending + (str(seen),))
            return r
        except OSError as e:
            self.history.append(self.pending + (type(e).__name__,))
            raise

    def resume(self):
        """Runs until the next operation (or the end)"""
        self.go.release()
        self.run.back.acquire()


class Run:
    """One execution under a schedule given as the list of the threads to run"""

    def __init__(self, root, paths):
        self.by_ident = {}
        self.back = threading.Semaphore(0)
        self.abort = False
        self.threads = [Thread(self, i, p) for i, p in enumerate(paths)]
        self.root = root

    def start(self):
        for t in self.threads:
            t.th.start()
            while t.ident is None:
                pass
            t.resume()  # to the first operation

    def enabled(self):
        return [i for i, t in enumerate(self.threads) if not t.done]

    def stop(self):
        self.abort = True
        for t in self.threads:
            while not t.done:
                t.resume()
            t.th.join()


def tree(root):
    out = []
    for d, ds, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, x), root) for x in ds] + ['file ' + os.path.relpath(os.path.join(d, x), root) for x in fs]
    return tuple(sorted(out))


def explore(root, start, paths, obs):
    """Depth-first search over all schedules, replaying the prefix for every execution"""
    seen = set()
    stack = [()]
    while stack:
        prefix = stack.pop()
        for x in REAL['listdir']('.'):
            shutil.rmtree(x) if os.path.isdir(x) and not os.path.islink(x) else os.unlink(x)
        for d in TREES[start]:
            os.makedirs(d, exist_ok=True)
        run = Run(root, paths)

        def hooked(name):
            real = REAL[name]

            def call(*args, **kwargs):
                t = run.by_ident.get(threading.get_ident())
                if t is None or t.done:
                    return real(*args, **kwargs)
                return t.point(name, real, args, kwargs)
            return call
        for name in OPS:
            setattr(os, name, hooked(name))
        try:
            run.start()
            schedule = []
            steps = 0
            while True:
                en = run.enabled()
                # threads with the same request are interchangeable
                key = (tuple(sorted(repr((t.path, t.history, t.pending, t.done)) for t in run.threads)), tree(root))
                if len(schedule) >= len(prefix):
                    if key in seen:
                        break
                    seen.add(key)
                    obs.state(start, paths, key)
                    if not en:
                        break
                    for i in en[1:]:
                        stack.append(tuple(schedule) + (i,))
                    choice = en[0]
                else:
                    choice = prefix[len(schedule)]
                run.threads[choice].resume()
                schedule.append(choice)
                obs.trans()
                steps += 1
                if steps > STEP_LIMIT:
                    raise Violation('the calls do not come to an end', requests=paths, tree=TREES[start], schedule=schedule)
            finished = not run.enabled()
        finally:
            run.stop()
            for name in OPS:
                setattr(os, name, REAL[name])
        history = [t.history for t in run.threads]
        for t in run.threads:
            if t.error is not None:
                raise Violation('a concurrent call fails: %s: %s' % (type(t.error).__name__, t.error), requests=paths, tree=TREES[start], schedule=schedule,
                                operations=history)
        if not finished:
            continue
        obs.trace()
        have = tree(root)
        want = set()
        for p in list(paths) + TREES[start]:
            p = os.path.relpath(os.path.normpath(os.path.join(root, p)), root)
            while p not in ('', '.'):
                want.add(p)
                p = os.path.dirname(p)
        if set(have) != want:
            raise Violation('the directories are %s instead of %s' % (sorted(have), sorted(want)), requests=paths, tree=TREES[start], schedule=schedule,
                            operations=history)
        obs.outcome('%d threads, %d operations' % (len(paths), len(schedule)))


def run_case(c, obs):
    root = core.scratch() + '/tree'
    os.makedirs(root, exist_ok=True)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        paths = [REQUESTS[i].replace('ABS', root) for i in c['requests']]
        if len(paths) == 1:
            existing(paths[0], c['tree'], root, obs)
            if c['tree'] == 0:
                obstacles(paths[0], root, obs)
        explore(root, c['tree'], paths, obs)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


def existing(path, start, root, obs):
    """Asking again changes nothing, whatever the directory holds"""
    impl.helpers.makedir(path)
    full = os.path.join(root, path)
    with open(os.path.join(full, 'data'), 'w') as f:
        f.write('contents')
    os.makedirs(os.path.join(full, 'sub'), exist_ok=True)
    os.symlink(os.path.realpath(full), root + '/link')
    for mode in (0o755, 0o700, 0o555, 0o2775):
        os.chmod(full, mode)
        for p in (path, root + '/link'):
            before = (tree(root), os.stat(full).st_mtime_ns, os.stat(full).st_ino, stat.S_IMODE(os.stat(full).st_mode))
            impl.helpers.makedir(p)
            after = (tree(root), os.stat(full).st_mtime_ns, os.stat(full).st_ino, stat.S_IMODE(os.stat(full).st_mode))
            if before != after or not os.path.islink(root + '/link') or open(os.path.join(full, 'data')).read() != 'contents':
                raise Violation('asking for a directory that exists changes it', request=p, before=before, after=after)
            obs.trans()
    os.chmod(full, 0o755)
    obs.trace()
    obs.state('existing', path, start)


def clear():
    for x in os.listdir('.'):
        shutil.rmtree(x) if os.path.isdir(x) and not os.path.islink(x) else os.unlink(x)


def obstacles(path, root, obs):
    """With files and links in the way, a call makes the directory or says that it cannot"""
    for things in OBSTACLES:
        clear()
        for kind, name, *to in things:
            if kind == 'dir':
                os.makedirs(name)
            elif kind == 'link':
                os.symlink(to[0], name)
            else:
                with open(name, 'w') as f:
                    f.write('contents')
        before = tree(root)
        try:
            impl.helpers.makedir(path)
            error = None
        except OSError as e:
            error = e
        there = os.path.isdir(path)
        if error is None and not there:
            raise Violation('a call returns without an error, but there is no directory', request=path, obstacles=things)
        if error is not None and there:
            raise Violation('a call fails although the directory is there: %s' % error, request=path, obstacles=things)
        if not set(before) <= set(tree(root)):
            raise Violation('a call removes something that was in the way', request=path, obstacles=things)
        obs.trans()
        obs.state('obstacles', path, things)
        obs.outcome('directory' if there else 'error')
    # permissions are those the caller asked for by its mask
    for mask in (0o022, 0o077, 0o002, 0):
        clear()
        had = set(tree(root))
        old = os.umask(mask)
        try:
            impl.helpers.makedir(path)
        finally:
            os.umask(old)
        for d in set(tree(root)) - had:
            m = stat.S_IMODE(os.stat(os.path.join(root, d)).st_mode) & 0o777
            if m != 0o777 & ~mask:
                raise Violation('a new directory has permissions %o with the mask %o' % (m, mask), directory=d, request=path)
        obs.trans()
    clear()
    obs.trace()
