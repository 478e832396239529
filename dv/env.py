"""Paths and environment shared by the checks."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def paths(solver=True):
    """The code's own interpreter, with the solver bindings appended last."""
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if solver and VT not in sys.path:
        sys.path.append(VT)


def child_env(scratch):
    """Environment of a process that runs the real code: every user path inside `scratch`."""
    e = dict(os.environ)
    for k in ("HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "MPLCONFIGDIR", "TMPDIR"):
        e[k] = os.path.join(scratch, k.lower())
        os.makedirs(e[k], exist_ok=True)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
             DV_SCRATCH=scratch, PYTHONWARNINGS="ignore", PYTHONPATH=REPO + os.pathsep + VERIF)
    e.pop("PSP_CONFIG_FILE", None)
    e.pop("PSP_DATA_ROOT", None)
    return e
