#!/opt/venv/bin/python
"""Replay a violation file against the real code: python replay.py evidence/replay/C01-input.json"""
import importlib
import json
import os
import shutil
import sys
import tempfile

from dv import env

env.paths()
if "DV_SCRATCH" not in os.environ:
    scratch = tempfile.mkdtemp(prefix="dv-replay-")
    try:
        import subprocess
        sys.exit(subprocess.call([env.PYTHON] + sys.argv, env=env.child_env(scratch)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
from dv import conc  # noqa

d = json.load(open(sys.argv[1]))
if "case" not in d:
    print(json.dumps(d, indent=1))
    sys.exit("no failing input: the file names the failed obligations")
mod = importlib.import_module("props." + d["property"].lower())
st, msg = conc.one(mod, d["case"])
print(st, msg)
sys.exit(1 if st == "fail" else 0)
