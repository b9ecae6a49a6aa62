"""Environment of every check: single-threaded BLAS, no bytecode in /repo, numga imported from /repo."""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
	sys.path.insert(0, REPO)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
	sys.path.append(_vt)
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NPROC = int(os.environ.get('VERIF_NPROC', str(min(8, os.cpu_count() or 1))))
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'evidence'))
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))     # development only: stop at the first violation
import numga
_where = os.path.realpath(list(numga.__path__)[0] if not getattr(numga, '__file__', None) else numga.__file__)
assert _where.startswith(os.path.realpath(REPO) + os.sep), f'numga comes from {_where}, not from {REPO}'
