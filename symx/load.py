"""Load pipedream from /repo's working tree, afresh in every process.

NUMBA_DISABLE_JIT makes `njit` the identity, so the Python bodies of the compiled kernels
are what runs, symbolically or concretely.  Nothing is written into /repo.
"""
import os
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = ['geometry', 'ngeometry', 'storage', 'utils', 'nutils', 'superlink', 'nsuperlink', 'infiltration',
        'ninfiltration', 'nquality', 'simulation', 'hydraulics', 'hydrology', 'transport']


def prepare(jit=False):
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if not jit:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ.setdefault('NUMBA_CACHE_DIR', tempfile.mkdtemp(prefix='vnumba'))
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def modules():
    import importlib
    out = []
    for m in MODS:
        try:
            out.append(importlib.import_module('pipedream_solver.' + m))
        except ModuleNotFoundError as e:
            if 'pipedream_solver' not in str(e):
                raise
    # any other module of the package that got imported
    for k, v in list(sys.modules.items()):
        if k.startswith('pipedream_solver.') and v is not None and v not in out and 'visualization' not in k:
            out.append(v)
    return out
