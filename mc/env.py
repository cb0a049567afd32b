"""Process set-up: import eckity from /repo's working tree, under control."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sys.path[:] = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    from . import clock, execs, rng
    clock.install()
    rng.install()
    execs.install()
    import eckity.algorithms.simple_evolution  # noqa: F401
    import eckity
    d = os.path.dirname(os.path.abspath(getattr(eckity, "__file__", None) or list(eckity.__path__)[0] + "/x"))
    if not d.startswith(os.path.abspath(REPO)):
        raise RuntimeError("eckity was imported from %s, not %s" % (d, REPO))
    quiet()


def quiet():
    logging.disable(logging.CRITICAL)
