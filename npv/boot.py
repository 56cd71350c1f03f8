"""Process bootstrap: locate /repo, the solver, and keep the package's on-disk cache out of the way."""
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get("NPV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


def setup(mode=None, ir=True):
    """mode: 'numpy' | 'numba' | None (no package import wanted)"""
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if "XDG_CACHE_HOME" not in os.environ or not os.environ["XDG_CACHE_HOME"].startswith("/tmp/npv"):
        d = tempfile.mkdtemp(prefix="npv-cache-")
        os.environ["XDG_CACHE_HOME"] = d
        atexit.register(shutil.rmtree, d, True)
    if mode is not None:
        os.environ["NPP_USE_NUMBA"] = "TRUE" if mode == "numba" else "FALSE"
    if mode == "numba" and ir:
        # unoptimised IR; the optimiser is trusted (see DESIGN.md)
        os.environ["NUMBA_OPT"] = "0"
        os.environ["NUMBA_LOOP_VECTORIZE"] = "0"
        os.environ["NUMBA_SLP_VECTORIZE"] = "0"
    import warnings
    warnings.filterwarnings("ignore")
    return REPO


def stub_missing_resources():
    """resources/encount/la/spawner_names.json is not in the repository; importing the encounter data
    needs it.  Answer that one read with an empty table; everything else is read as it is."""
    import importlib.resources as r
    real = r.read_text
    if getattr(real, "_npv", False):
        return

    def read_text(package, resource, *a, **k):
        try:
            return real(package, resource, *a, **k)
        except FileNotFoundError:
            if resource == "spawner_names.json":
                return "{}"
            raise
    read_text._npv = True
    r.read_text = read_text
