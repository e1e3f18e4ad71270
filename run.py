"""Entry point: run.py <property> [--replay FILE] [--sub NAME]"""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(HERE, "vendor"), REPO]


def third_party():
    """Import the installed libraries with their own bytecode. The bytecode of the code under test is never
    read from nor written to its tree: it goes to the scratch directory."""
    prefix, sys.pycache_prefix = sys.pycache_prefix, None
    sys.path.remove(REPO)
    try:
        for name in (
            "numpy numba scipy scipy.stats scipy.linalg scipy.optimize scipy.sparse scipy.sparse.linalg scipy.interpolate pandas xarray sympy yaml"
            " ruamel.yaml matplotlib.pyplot interpolation interpolation.splines dolang dolang.symbolic dolang.factory"
        ).split():
            try:
                __import__(name)
            except ImportError:
                pass
    finally:
        sys.path.insert(2, REPO)
        sys.pycache_prefix = prefix


third_party()
from pbt import runner

if __name__ == "__main__":
    if "--selftest" in sys.argv:
        import hypothesis, numpy, numba, scipy, dolang, xarray, yaml

        print("ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
        sys.exit(0)
    code = runner.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    # the interpreter may hang when it unloads the threads of numba (tbb), on a single processor
    os._exit(code or 0)
