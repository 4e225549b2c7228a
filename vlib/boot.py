"""Process bootstrap: make sure the code under test is /repo/lib's working tree.

Every check re-executes itself under the repository's interpreter with a pinned
environment; b_asic is always imported from /repo/lib, never from a copy.
"""
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
PIN = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "QT_API": "pyqt6",
    "QT_QPA_PLATFORM": "offscreen",
    "PYTHONPATH": REPO + "/lib",
}


def ensure_env():
    """Re-exec under the pinned interpreter/environment if necessary."""
    if os.environ.get("_VERIF_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(PIN)
    env["_VERIF_BOOTED"] = "1"
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, *sys.argv], env)


def stub_generated():
    """The two generated modules (git-ignored build products) are stubbed if absent."""
    base = REPO + "/lib/b_asic/"
    if not os.path.exists(base + "_version.py"):
        m = types.ModuleType("b_asic._version")
        m.__version__ = "0.0.0"
        m.version = "0.0.0"
        sys.modules["b_asic._version"] = m
    if not os.path.exists(base + "_b_asic.py"):
        m = types.ModuleType("b_asic._b_asic")

        class FastSimulation:  # placeholder: the C++ extension is not built here
            def __init__(self, *a, **k):
                raise NotImplementedError

        m.FastSimulation = FastSimulation
        sys.modules["b_asic._b_asic"] = m


def boot():
    ensure_env()
    stub_generated()
    import warnings

    warnings.filterwarnings("ignore")
    import b_asic

    where = os.path.realpath(b_asic.__file__)
    if not where.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"b_asic imported from {where}, not from {REPO}")
