import os, sys
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1', 'MPLBACKEND': 'Agg', 'LANG': 'C.UTF-8', 'TZ': 'UTC'}
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_REEXEC') != '1':
    e = dict(os.environ); e.update(ENV); e['VERIF_REEXEC'] = '1'
    os.execve(PY, [PY, '-W', 'ignore'] + [os.path.abspath(__file__)] + sys.argv[1:], e)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import importlib
from mc import core
pid = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    tier = 'thorough'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
mod = importlib.import_module('mc.checks.' + pid.lower())
code = core.main(mod.PROP, 'thorough' if tier == 'thorough' else 'quick', seed, replay)
sys.stdout.flush()
os._exit(code)
