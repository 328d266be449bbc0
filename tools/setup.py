"""Setup: nothing to compile; verify that the environment can run the checks."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # noqa: E402

boot.ensure_env()
boot.setup_imports()
import jax  # noqa: E402
import numpy  # noqa: E402
import scipy  # noqa: E402
os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
print('ok', sys.version.split()[0], numpy.__version__, scipy.__version__,
      jax.__version__)
