#!/opt/venv/bin/python
"""run.py CNN [--tier quick|thorough]   or   run.py --replay FILE"""
import os
import sys
for k, v in (('OPENBLAS_NUM_THREADS', '1'), ('OMP_NUM_THREADS', '1'), ('PYTHONHASHSEED', '0'), ('MPLBACKEND', 'Agg'),
             ('PYTHONDONTWRITEBYTECODE', '1'), ('PYTHONPYCACHEPREFIX', '/nonexistent/pyc')):
    if os.environ.get(k) != v:
        os.environ[k] = v
        os.environ['_DG1D_REEXEC'] = '1'
if os.environ.pop('_DG1D_REEXEC', None):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore'] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import core  # noqa: E402

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay':
        sys.exit(core.replay(os.path.abspath(a[1])))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    os.chdir(HERE)
    sys.exit(core.run_check('checks.' + a[0].lower(), tier))
