"""Process set-up: environment, import path of the code under test (/repo) and
of the generator library (Hypothesis, which the project's own virtual
environment does not have).  Import this before anything else."""

import glob
import importlib.abc
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = "/opt/venv/bin/python"

ENV = {
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "HYPOTHESIS_NO_PLUGINS": "1",
}


def reexec():
    """Restart under the project's interpreter with a pinned environment."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = dict(os.environ, **ENV)
    env["VERIF_BOOTED"] = "1"
    env.pop("PYTHONPATH", None)
    py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
    os.execve(py, [py] + sys.argv, env)


class _Borrow(importlib.abc.MetaPathFinder):
    """Finds a few pure-Python packages in another environment of the same
    Python version, without making the rest of that environment importable."""

    NAMES = {
        "hypothesis",
        "_hypothesis_globals",
        "_hypothesis_ftz_detector",
        "_hypothesis_pytestplugin",
        "sortedcontainers",
        "attr",
        "attrs",
    }

    def __init__(self, where):
        self.where = where

    def find_spec(self, name, path=None, target=None):
        if path is None and name in self.NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [self.where])
        return None


def _unzip_wheels():
    import tempfile
    import zipfile

    d = tempfile.mkdtemp(prefix="verif-wheels-")
    for pat in ("hypothesis-*", "sortedcontainers-*", "attrs-*"):
        for whl in glob.glob("/opt/veriftools/wheels/" + pat + ".whl"):
            zipfile.ZipFile(whl).extractall(d)
    return d


def boot():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    if ROOT not in sys.path:
        sys.path.insert(1, ROOT)
    warnings.filterwarnings("ignore")
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        where = None
        for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
            if os.path.isdir(os.path.join(d, "hypothesis")):
                where = d
        sys.meta_path.append(_Borrow(where or _unzip_wheels()))
        import hypothesis  # noqa: F401
    import giddy

    got = os.path.dirname(os.path.dirname(os.path.abspath(giddy.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise RuntimeError(f"giddy was imported from {got}, not from {REPO}")
    import numpy as np

    np.seterr(all="ignore")
