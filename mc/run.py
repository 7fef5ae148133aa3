"""usage: run.py <property> [quick|thorough]     (or: run.py replay <file>)"""
import os
import sys
import tempfile
import warnings

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("STOCHOPY_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def _setup():
    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import stochopy

    assert os.path.realpath(stochopy.__file__).startswith(os.path.realpath(REPO) + "/"), stochopy.__file__


if __name__ == "__main__":
    # A fresh, empty bytecode cache: a stale .pyc can never stand in for the source.
    with tempfile.TemporaryDirectory(prefix="vf-pyc-") as d:
        sys.pycache_prefix = d
        if sys.argv[1] == "replay":
            _setup()
            import replay

            rc = replay.main(sys.argv[2])
        else:
            tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
            prop = sys.argv[1]
            try:
                _setup()
            except Exception as e:  # the package cannot even be imported
                import traceback

                traceback.print_exc()
                os._exit(2)
            import engine

            rc = engine.main(prop, tier, ROOT)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
