"""Process environment: fixed before numpy / jax are imported.

Everything a check writes goes to /verif/evidence, /verif/replays (both
ignored by git) or a private scratch directory that is removed at exit.
"""
import atexit
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

FIXED = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'JAX_PLATFORMS': 'cpu',
    'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'OPENBLAS_CORETYPE': 'Haswell',
    'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false '
                 'intra_op_parallelism_threads=1',
}


def ensure_env():
    """Re-exec with the interpreter and the environment the checks need."""
    need = any(os.environ.get(k) != v for k, v in FIXED.items())
    if os.path.realpath(sys.executable) != os.path.realpath(PY) \
            and os.path.exists(PY):
        need = True
    if os.path.exists(PY) and not sys.prefix.startswith('/opt/venv'):
        need = True
    if need:
        if os.environ.get('VERIF_REEXEC') == '1':
            raise SystemExit('cannot establish the environment of the checks')
        env = dict(os.environ)
        env.update(FIXED)
        env['VERIF_REEXEC'] = '1'
        env.setdefault('HOME', '/root')
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe] + sys.argv, env)


_scratch = None


def scratch():
    """Private scratch directory of this process."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif_scratch_')
        owner = os.getpid()

        def _rm(path=_scratch, owner=owner):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


def setup_imports():
    sys.dont_write_bytecode = True
    os.environ['MPLCONFIGDIR'] = scratch()
    os.environ.pop('PYTHONPATH', None)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import warnings
    warnings.filterwarnings('ignore')
    import tmdsimpy
    where = os.path.realpath(os.path.dirname(tmdsimpy.__file__))
    want = os.path.realpath(os.path.join(REPO, 'tmdsimpy'))
    if where != want:
        raise SystemExit('tmdsimpy imported from %s, not %s' % (where, want))
