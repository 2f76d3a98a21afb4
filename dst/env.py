"""Process environment of the simulator: imports pysad from the tree under test."""
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

ENV = dict(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           NUMEXPR_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           NUMBA_NUM_THREADS="1", NUMBA_DISABLE_JIT="0", TQDM_DISABLE="1")


def setup_environ(hashseed="0"):
    """Re-executes the interpreter once so that hash seed and thread counts are ours."""
    want = dict(ENV, PYTHONHASHSEED=hashseed)
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(PY, [PY, "-B"] + sys.argv)


def no_cached_bytecode():
    """The tree under test is always compiled from its current source, never loaded from a .pyc beside it."""
    import importlib._bootstrap_external as ext
    orig = ext.cache_from_source
    root = os.path.abspath(REPO) + os.sep

    def cache_from_source(path, *a, **k):
        if os.path.abspath(path).startswith(root):
            raise NotImplementedError
        return orig(path, *a, **k)
    ext.cache_from_source = cache_from_source


def import_pysad():
    sys.dont_write_bytecode = True
    no_cached_bytecode()
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath(REPO)]
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.WARNING)
    import numpy as np
    np.seterr(all="ignore")
    # Everything the simulated runs may need, imported before any fork.
    import random, copy, pickle, json, gc  # noqa
    import pandas  # noqa
    import pysad
    assert os.path.abspath(pysad.__file__).startswith(os.path.abspath(REPO) + os.sep), pysad.__file__
    import pysad.models, pysad.transform.preprocessing, pysad.transform.postprocessing  # noqa
    import pysad.transform.projection, pysad.transform.ensemble, pysad.transform.probability_calibration  # noqa
    import pysad.evaluation, pysad.statistics, pysad.utils, pysad.models.integrations  # noqa
    import pysad.models.inqmad  # noqa
    import pyod.models.knn, pyod.models.iforest  # noqa
    import scipy.io, scipy.stats, sklearn.metrics  # noqa
    import statsmodels.tsa.seasonal  # noqa
    import rrcf, PyNomaly, mmh3  # noqa
    import warnings
    warnings.simplefilter("ignore")
    gc.collect()
    gc.freeze()
    return pysad
