#!/opt/venv/bin/python
"""Decide one property: python check.py C01   (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
from dv import env  # noqa

env.paths()
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
# seconds: whole proof phase, one contract, conformance run, search after a refutation
LIMITS = dict(quick=(420, 240, 45, 150), thorough=(1500, 900, 300, 600))[TIER]
BUILTIN_ASSUMPTIONS = [
    "machine floating point treated as exact real arithmetic; rounding, overflow and signed zero not modelled",
    "infinities not modelled: x/0 is an unspecified real, 0/0 is NaN",
    "exp, log, sin, cos ... are uninterpreted functions constrained by their listed axioms",
    "the trapezoid rule and running sums are uninterpreted functionals used through the lemmas proved in lean/Trapz.lean",
    "numpy, dask, scipy, h5py, os, requests, tarfile, yaml ... enter through assumed contracts (dv/shims.py, "
    "dv/ioshims.py, dv/loops.py), exercised against the real libraries by the conformance run",
    "the extraction in dv/loader.py executes the statements of /repo's current source; it rewrites only control "
    "flow on symbolic conditions, comparisons/boolean operators, loops and string/container displays, and drops "
    "type annotations; log messages go to a stand-in that discards them",
]


def worker(prop, name, budget, outfile):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        from dv import session
        mod = importlib.import_module("props." + prop.lower())
        con = next(c for c in mod.CONTRACTS if c.name == name)
        res = session.run_contract(con, budget)
    except BaseException:  # noqa
        res = dict(contract=name, status="unsupported", reason="engine error: " + traceback.format_exc()[-1500:])
    with open(outfile, "w") as f:
        json.dump(res, f, default=str)


def run_contracts(prop, cons, scratch, found=lambda: False):
    total, each = LIMITS[0], LIMITS[1]
    t0 = time.time()
    todo = list(enumerate(cons))
    running, results = {}, {}
    mp = multiprocessing.get_context("fork")
    ncpu = max(1, min(8, os.cpu_count() or 1))
    while todo or running:
        left = total - (time.time() - t0)
        if left > 5 and time.time() - t0 > 30 and found():
            left = 0  # a failing input is already known: do not wait for the remaining proofs
            for k, (p, con, out, dl) in list(running.items()):
                running[k] = (p, con, out, 0)
        while todo and len(running) < ncpu and left > 5:
            k, con = todo.pop(0)
            out = os.path.join(scratch, "con%d.json" % k)
            budget = min(each, con.budget or each, left)
            p = mp.Process(target=worker, args=(prop, con.name, budget, out))
            p.start()
            running[k] = (p, con, out, time.time() + budget + 15)
        if left <= 5:
            for k, con in todo:
                results[k] = dict(contract=con.name, status="unknown", reason="time limit of the proof phase")
            todo = []
        for k, (p, con, out, dl) in list(running.items()):
            p.join(0.02)
            if p.is_alive() and time.time() < dl:
                continue
            why = "no result"
            if p.is_alive():
                why = "contract time limit"
                p.kill()
                p.join()
            try:
                results[k] = json.load(open(out))
            except (OSError, ValueError):
                results[k] = dict(contract=con.name, status="unknown", reason=why)
            del running[k]
        time.sleep(0.02)
    return [results[k] for k in sorted(results)]


def run_concrete(prop, scratch, tier, budget, cases=None, stop=False, tag="c"):
    sub = tempfile.mkdtemp(prefix=tag, dir=scratch)
    out = os.path.join(sub, "out.json")
    cmd = [env.PYTHON, "-m", "dv.conc", prop, "--seed", str(SEED), "--tier", tier, "--budget", str(budget),
           "--out", out]
    if cases:
        cf = os.path.join(sub, "cases.json")
        json.dump(cases, open(cf, "w"), default=str)
        cmd += ["--cases", cf]
    if stop:
        cmd.append("--stop-on-fail")
    log = open(os.path.join(sub, "log"), "w+")
    p = subprocess.Popen(cmd, cwd=sub, env=env.child_env(sub), stdout=log, stderr=log, start_new_session=True)
    return p, out, log, time.time() + budget + 90


def _failed(out):
    try:
        return bool(json.load(open(out))["failures"])
    except (OSError, ValueError):
        return False


def wait_concrete(h):
    p, out, log, dl = h
    try:
        p.wait(max(1, dl - time.time()))
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        log.seek(0)
        return dict(evaluations=0, ok=0, skipped=0, distinct=0, failures=[], samples=[], complete=False, wall=0,
                    errors=[dict(case=None, message="runner: " + log.read()[-1500:])])


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(env.VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: property=%s " % prop):])
    except OSError:
        pass
    return out


def main(prop):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="dv-%s-" % prop)
    try:
        return run(prop, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, scratch, t0):
    mod = importlib.import_module("props." + prop.lower())
    cons = [c for c in mod.CONTRACTS if TIER == "thorough" or not c.thorough]
    h = run_concrete(prop, scratch, TIER, LIMITS[2])
    results = run_contracts(prop, cons, scratch, lambda: h[0].poll() is not None and _failed(h[1]))
    conc = wait_concrete(h)
    refuted = [r for r in results if r["status"] == "refuted"]
    open_ = [r for r in results if r["status"] not in ("proved", "refuted")]
    search = None
    failures = list(conc["failures"])
    if not failures and (refuted or open_):
        seeds = []
        for r in refuted:
            for f in r["failed"]:
                if f["status"] == "refuted" and hasattr(mod, "model_cases"):
                    try:
                        seeds += list(mod.model_cases(r["contract"], f["model"]))
                    except Exception:  # noqa
                        pass
        budget = LIMITS[3]
        search = wait_concrete(run_concrete(prop, scratch, "search", budget, seeds[:200], True, "s"))
        failures += search["failures"]
    rdir = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    nviol = 0
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    lines = []
    if failures:
        f = failures[0]
        path = os.path.join(rdir, "%s-input.json" % prop)
        json.dump(dict(property=prop, case=f["case"], message=f["message"],
                       failed_obligations=[dict(contract=r["contract"], **x) for r in refuted for x in r["failed"]][:20],
                       replay_cmd="%s replay.py %s" % (env.PYTHON, path)), open(path, "w"), indent=1, default=str)
        print("failing input: %s" % json.dumps(f["case"], default=str)[:1500])
        print("observed: %s" % str(f["message"])[:1500])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        nviol = len(failures)
    elif refuted:
        path = os.path.join(rdir, "%s-obligation.json" % prop)
        json.dump(dict(property=prop, failed_obligations=[dict(contract=r["contract"], **x)
                                                          for r in refuted for x in r["failed"]][:40]),
                  open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        nviol = len(refuted)
    for r in results:
        print("%-11s %-60s obligations %s/%s  %ss %s" % (
            r["status"], r["contract"], r.get("n_discharged", 0), r.get("n_obligations", 0), r.get("wall", "-"),
            "" if r["status"] == "proved" else "| " + (r.get("reason") or "; ".join(
                sorted({x["label"] for x in r.get("failed", [])})))[:300].replace("\n", " ")))
    print("conformance run: %d evaluations, %d distinct, %d failures, %d errors, %.1fs" % (
        conc["evaluations"], conc["distinct"], len(conc["failures"]), len(conc["errors"]), conc["wall"]))
    if os.environ.get("DV_VERBOSE"):
        for e in conc["errors"]:
            print("ERROR", e["message"])
    evidence(prop, mod, results, conc, search, nviol, time.time() - t0)
    for ln in lines:
        print(ln)
    return 1 if lines else 0


def evidence(prop, mod, results, conc, search, nviol, wall):
    proved = [r for r in results if r["status"] == "proved"]
    rest = [r for r in results if r["status"] != "proved"]
    level = "proof" if results and not rest else "exploration"
    funcs, backs, solver = {}, {}, {}
    for r in results:
        for f in r.get("functions", []):
            funcs.setdefault(f, []).append(r["contract"])
        for b, n in r.get("backends", {}).items():
            backs[b] = backs.get(b, 0) + n
        for b, (n, t) in r.get("solver", {}).items():
            q = solver.setdefault(b, [0, 0.0])
            q[0] += n
            q[1] = round(q[1] + t, 3)
    cov = dict(
        obligations=sum(r.get("n_obligations", 0) for r in results),
        discharged=sum(r.get("n_discharged", 0) for r in results),
        checker_cmd="VERIF_TIER=%s VERIF_SEED=%d %s check.py %s" % (TIER, SEED, env.PYTHON, prop),
        trusted_base=["CPython 3.12 executing the extracted statements", "dv/ (extraction, value semantics, shim "
                      "contracts, axioms)", "z3 " + _z3v(), "cvc5 1.1.2 (second opinion on z3 unknowns)"],
        contracts=[dict(contract=r["contract"], status=r["status"], about=r.get("about", ""),
                        obligations=r.get("n_obligations", 0), discharged=r.get("n_discharged", 0),
                        paths=r.get("live_paths", 0), wall_s=r.get("wall"), labels=r.get("labels", []),
                        reason=r.get("reason", "")) for r in results],
        functions_under_contract=sorted(funcs),
        discharged_by=backs,
        solver_queries_and_seconds=solver,
        bounded_stand_in=[dict(contract=r["contract"], reason=r.get("reason", "")[:500],
                               bound="the conformance and search evaluations below only") for r in rest],
        evaluations=conc["evaluations"] + (search["evaluations"] if search else 0),
        distinct_nontrivial=conc["distinct"] + (search["distinct"] if search else 0) - conc["skipped"] -
        (search["skipped"] if search else 0),
        rule=getattr(mod, "RULE", "seeded random cases from the property's precondition, evaluated on the real code "
                     "against an independent oracle; a case counts when it is distinct and its precondition holds"),
        samples=conc["samples"] or [f["case"] for f in conc["failures"][:1]],
        harness_errors=[e["message"][-300:] for e in conc["errors"]],
    )
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=BUILTIN_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:  # noqa
        return "?"


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
