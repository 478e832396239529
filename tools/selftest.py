#!/opt/venv/bin/python
"""setup_cmd: nothing to build; verify that the tools the checks need are there."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from dv import env  # noqa

env.paths()
import z3  # noqa
import numpy, scipy, dask, xarray, h5py, yaml  # noqa

x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
print("z3", z3.get_version_string(), "cvc5", shutil.which("cvc5"))
os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
# the lemmas about the trapezoid rule and running sums which the engine instantiates
lean = shutil.which("lean")
if lean:
    import subprocess
    try:
        r = subprocess.run([lean, os.path.join(env.VERIF, "lean", "Trapz.lean")], capture_output=True, text=True, timeout=600)
        print("lean/Trapz.lean:", "accepted" if r.returncode == 0 and not r.stdout.strip() else "NOT accepted: " + r.stdout[:2000] + r.stderr[:500])
    except (subprocess.TimeoutExpired, OSError) as e:
        print("lean/Trapz.lean not checked:", e)
