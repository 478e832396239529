"""Run-time form of the contracts: the same postconditions evaluated on the real, unmodified code.

Used (a) to replay a refuted obligation, (b) as the labelled bounded stand-in for a contract outside the
verifier's reach, (c) as a conformance run of the shim contracts: the proofs assume numpy & co behave as their
contracts say, and this exercises the real libraries under the same postconditions.
"""
import argparse
import hashlib
import importlib
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from dv import env


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The case does not apply (precondition not met)."""


def _alarm(_s, _f):
    raise CaseTimeout()


def in_repo(tb):
    base = os.path.join(env.REPO, "pyspectral") + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(base):
            return True
        tb = tb.tb_next
    return False


def one(mod, case, limit=60):
    """-> (status, message): 'ok', 'fail', 'skip', 'error'."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    try:
        msg = mod.run_case(case)
        return ("fail", msg) if msg else ("ok", None)
    except Skip as e:
        return "skip", str(e)
    except CaseTimeout:
        return "fail", "did not return within %d s" % limit
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if isinstance(e, (ImportError, MemoryError)) or not in_repo(e.__traceback__):
            return "error", tb[-1500:]
        return "fail", "raised %s: %s\n%s" % (type(e).__name__, e, tb[-1500:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)


class scratchdir:
    """A scratch directory inside the run's scratch area."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="case", dir=os.environ.get("DV_SCRATCH"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------------------ comparison helpers
def close(a, b, rtol=1e-9, atol=0.0):
    """Element-wise equality up to rounding; NaN equals NaN only. -> None or a description."""
    import numpy as np
    try:
        a, b = np.asarray(a), np.asarray(b)
    except Exception as e:  # noqa
        return "not comparable: %r" % (e,)
    if a.shape != b.shape:
        return "shape %s, expected %s" % (a.shape, b.shape)
    try:
        a, b = a.astype(float), b.astype(float)
    except (TypeError, ValueError):
        return "value of kind %s, expected %s" % (a.dtype, b.dtype)
    an, bn = np.isnan(a), np.isnan(b)
    if (an != bn).any():
        i = tuple(int(x) for x in np.argwhere(an != bn)[0])
        return "NaN pattern differs at %s: got %r, expected %r" % (i, float(a[i]), float(b[i]))
    with np.errstate(all="ignore"):
        bad = ~an & ~(np.abs(a - b) <= atol + rtol * np.abs(b)) & ~(a == b)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "at %s: got %r, expected %r" % (i, float(a[i]), float(b[i]))
    return None


def unchanged(name, before, after):
    import numpy as np
    if not np.array_equal(np.asarray(before), np.asarray(after), equal_nan=True):
        return "input %s was modified" % name
    return None


def first(*msgs):
    for m in msgs:
        if m:
            return m
    return None


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def dumps(case):
    return json.dumps(case, default=str)


# ------------------------------------------------------------------------------ worker
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out", required=True)
    ap.add_argument("--cases")
    ap.add_argument("--stop-on-fail", action="store_true")
    a = ap.parse_args()
    env.paths()
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    mod = importlib.import_module("props." + a.prop.lower())
    rng = random.Random(a.seed * 1000003 + int(a.prop[1:]))
    given = json.load(open(a.cases)) if a.cases else []

    def stream():
        for c in given:
            yield c
        for c in mod.cases(rng, a.tier):
            yield c
    res = dict(evaluations=0, ok=0, skipped=0, errors=[], failures=[], samples=[], complete=True)
    seen = set()
    for case in stream():
        if time.time() - t0 > a.budget:
            res["complete"] = False
            break
        case = json.loads(dumps(case))
        seen.add(hashlib.sha1(dumps(case).encode()).digest())
        st, msg = one(mod, case)
        res["evaluations"] += 1
        if st == "ok":
            res["ok"] += 1
            if len(res["samples"]) < 3 and len(dumps(case)) < 3000:
                res["samples"].append(case)
        elif st == "skip":
            res["skipped"] += 1
        elif st == "error":
            if len(res["errors"]) < 5:
                res["errors"].append(dict(case=case, message=msg))
        else:
            res["failures"].append(dict(case=case, message=msg))
            if a.stop_on_fail or len(res["failures"]) >= 20:
                res["complete"] = False
                break
    res["distinct"] = len(seen)
    res["wall"] = round(time.time() - t0, 3)
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(a.out + ".tmp", a.out)


if __name__ == "__main__":
    from dv import conc  # the module under its own name, so that props and runner share one Skip class
    conc.main()
