"""Process set-up shared by everything in the harness: single threaded numerics, the code under
test from /repo's working tree (no byte code written there), Hypothesis from the installed tools."""
import os
import sys
import warnings

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('PYVISTA_OFF_SCREEN', 'true')
sys.dont_write_bytecode = True

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if _HYP not in sys.path:
    sys.path.append(_HYP)

# scipy warns about exactly singular matrices, numpy about overflows; results are judged by the oracles
warnings.filterwarnings('ignore')

import PyNite  # noqa: E402

if not os.path.abspath(PyNite.__file__).startswith(REPO + os.sep):
    raise RuntimeError('PyNite was not imported from ' + REPO)
