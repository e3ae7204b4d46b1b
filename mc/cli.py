"""Runs the program (main.py) as its users do, in a scratch directory"""
import os
import shutil
import subprocess
import sys

from mc import core

GIT = '#!/bin/sh\necho 0000000\n'  # main.py prints its revision
NOGIT = '#!/bin/sh\necho fatal: not a git repository >&2\nexit 128\n'


def run(deck, where, timeout=200, name='deck.inp', args=None, git=True):
    """Runs main.py on the text of a deck in a new directory; returns (status, {file: text}, output)"""
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where + '/run')
    os.makedirs(where + '/bin')
    with open(where + '/bin/git', 'w') as f:
        f.write(GIT if git else NOGIT)
    os.chmod(where + '/bin/git', 0o755)
    with open(where + '/run/' + name, 'w') as f:
        f.write(deck)
    env = dict(os.environ, PATH=where + '/bin:' + os.environ.get('PATH', ''), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/pyc')
    p = subprocess.run([sys.executable, '-W', 'ignore', core.REPO + '/dg1d/main.py'] + (['-d', name] if args is None else args),
                       cwd=where + '/run', env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    files = {}
    for d, _, fs in os.walk(where + '/run'):
        for f in fs:
            path = os.path.join(d, f)
            files[os.path.relpath(path, where + '/run')] = open(path).read()
    files.pop(name, None)
    shutil.rmtree(where)
    return p.returncode, files, p.stdout


def deck(**o):
    """Text of a deck with the options given (sections in the order given)"""
    head = dict(system='PDE system', rk='RK scheme', riemann='riemann solver', ic='initial condition', nout='number of outputs',
                finaltime='final time', cfl='Courant-Friedrichs-Lewy condition', order='order', limiting='limiting', enhance='enhancement',
                thresholds='sensor thresholds')
    return ''.join('#%s\n%s\n' % (head[k], v) for k, v in o.items())
