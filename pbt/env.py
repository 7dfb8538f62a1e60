"""Process environment: import the library from /repo's working tree, without its build products."""

import atexit
import os
import shutil
import sys
import tempfile
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "lib")
EXTRA_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_scratch = None


def scratch_dir():
    """A directory of this run, removed when the main process ends."""
    return _scratch


def _cleanup(path, pid):
    if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)


def setup_environment():
    global _scratch
    os.environ.setdefault("HOME", "/root")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    os.environ["QT_API"] = "pyqt6"
    os.environ["PYTHONWARNINGS"] = "ignore"
    import warnings

    warnings.simplefilter("ignore")
    _scratch = tempfile.mkdtemp(prefix="verif-run-")
    atexit.register(_cleanup, _scratch, os.getpid())
    # Never trust or write byte code beside the sources: always compile the current tree.
    sys.pycache_prefix = os.path.join(_scratch, "pycache")
    for p in (REPO, LIB):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, LIB)
    if EXTRA_SITE not in sys.path:
        sys.path.append(EXTRA_SITE)

    # The two generated modules are not part of the tree; stand-ins keep the
    # import independent of whether a build has been made.
    ext = types.ModuleType("b_asic._b_asic")

    class ExtensionNotBuiltError(BaseException):
        pass

    class FastSimulation:
        def __init__(self, *args, **kwargs):
            raise ExtensionNotBuiltError("the C++ extension is not part of this run")

    ext.FastSimulation = FastSimulation
    ext.__all__ = ["FastSimulation"]
    sys.modules["b_asic._b_asic"] = ext
    ver = types.ModuleType("b_asic._version")
    ver.version = ver.__version__ = "1.0.0"
    sys.modules["b_asic._version"] = ver
