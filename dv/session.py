"""Contracts: symbolic inputs, running a contract on the extracted code, discharging its obligations."""
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as rnp
import z3

from dv import core, loader, prover, shims
from dv.core import Unsupported, ctx
from dv.values import (B1, F8, I8, El, Q, SArr, SBool, SNum, SStr, STR, dim_norm, dim_py, dimz, el_of, lift, rv,
                       strlit, to_real)


class Contract:
    """A function contract: fn(v) sets up preconditions, calls the real code and states postconditions."""

    def __init__(self, name, fn, about="", functions=(), budget=None, thorough=False, max_paths=3000, ms=8000):
        self.name, self.fn, self.about = name, fn, about
        self.functions = tuple(functions)
        self.budget, self.thorough, self.max_paths, self.ms = budget, thorough, max_paths, ms


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None


def _rz(x):
    """A real z3 term for a bound."""
    if z3.is_expr(x):
        return to_real(x)
    if isinstance(x, SNum):
        return to_real(x.r)
    if isinstance(x, Fraction):
        return rv(x)
    return to_real(el_of(x).r)


class V:
    """What a contract sees."""

    def __init__(self):
        self.c = ctx()

    # ------------------------------------------------------------------ inputs
    def dim(self, name, lo=1, hi=None):
        n = z3.Int("dim:" + name)
        self.c.assume(n >= lo)
        if hi is not None:
            self.c.assume(n <= hi)
        self.c.inputs["dim:" + name] = ("int", n)
        return n

    def num(self, name, lo=None, hi=None, gt=None, lt=None, dt=None, nan=False, integer=False):
        r = z3.Int("in:" + name) if integer else z3.Real("in:" + name)
        nz = z3.Bool("nan:" + name) if nan else core.FALSE
        for b, f in ((lo, lambda a, b: a >= b), (hi, lambda a, b: a <= b), (gt, lambda a, b: a > b),
                     (lt, lambda a, b: a < b)):
            if b is not None:
                self.c.assume(f(to_real(r), _rz(b)))
        self.c.inputs[name] = ("num", r, nz)
        return SNum(r, nz, dt, "int" if integer else "float")

    def bool(self, name):
        b = z3.Bool("in:" + name)
        self.c.inputs[name] = ("bool", b)
        return SBool(b)

    def str(self, name):
        z = z3.Const("in:" + name, STR)
        self.c.inputs[name] = ("str", z)
        return SStr.atom(z)

    def arr(self, name, dims, dt="f8", kind="numpy", nan=False, where=None, mask=False):
        """Array input with a precondition `where(element, idx)` on every element."""
        dt = rnp.dtype(dt)
        dims = tuple(d if not isinstance(d, str) else self.dim(d) for d in dims)
        n = len(dims)
        c = self.c
        isort = [z3.IntSort()] * n
        if dt.kind == "b":
            BF = z3.Function("in:" + name, *(isort + [z3.BoolSort()]))
            a = SArr(dims, lambda *i: El(b=BF(*i)), dt, kind)
            c.inputs[name] = ("arr", a)
            return a
        srt = z3.RealSort() if dt.kind == "f" else z3.IntSort()
        F = z3.Function("in:" + name, *(isort + [srt])) if n else None
        N = z3.Function("nan:" + name, *(isort + [z3.BoolSort()])) if (nan and n) else None

        def elem(*i):
            r = F(*i) if n else z3.Const("in:" + name, srt)
            if not nan:
                return El(r)
            return El(r, N(*i) if n else z3.Bool("nan:" + name))
        mf = None
        if mask:
            MF = z3.Function("mask:" + name, *(isort + [z3.BoolSort()]))
            mf = lambda *i: MF(*i)
        a = SArr(dims, elem, dt, kind, mf)
        if where is not None:
            def hook(idx, e):
                cond = where(e.r, idx)
                c.fact(z3.Implies(a.inrange(idx), z3.Or(e.nan, cond) if nan else cond))
            a.add_hook(hook)
        c.inputs[name] = ("arr", a)
        return a

    def increasing(self, a):
        """Precondition: 1-d array strictly increasing (instantiated for all pairs of mentioned indices)."""
        seen = []
        c = self.c

        def hook(idx, e):
            i = idx[0]
            for j, ej in seen:
                ok = z3.And(a.inrange((i,)), a.inrange((j,)))
                c.fact(z3.Implies(ok, z3.And((i < j) == (e.r < ej.r), (i == j) == (e.r == ej.r))))
            seen.append((i, e))
        a.add_hook(hook)
        return a

    def index(self, a, name="i"):
        """A generic index of a (Skolem constant, in range)."""
        dims = a.dims if isinstance(a, SArr) else a
        idx = tuple(z3.Int("idx:%s%d" % (name, k)) for k in range(len(dims)))
        for i, d in zip(idx, dims):
            self.c.assume(z3.And(i >= 0, i < dimz(d)))
        for k, i in enumerate(idx):
            self.c.inputs["idx:%s%d" % (name, k)] = ("int", i)
        return idx

    def instantiate(self, *idx):
        """Instantiate the defining facts of selections (nonzero, boolean masks) and arg-extrema at these indices."""
        for key, ent in list(self.c.__dict__.get("comp_tab", {}).items()):
            if key[:2] == (id(self.c), self.c.npaths) and ent.mask.ndim == 1:
                ent.at(z3.IntVal(0)), ent.at(ent.cnt - 1)
                for i in idx:
                    ent.covers(i)
        for p, inst in list(self.c.__dict__.get("arg_inst", [])):
            if p == self.c.npaths:
                for i in idx:
                    inst(i)

    def assume(self, cond):
        self.c.assume(core.as_bool(cond))

    # ----------------------------------------------------------------- running
    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except core.EngineStop:
            raise
        except Exception as e:  # noqa
            return Outcome(exc=e)

    def must(self, out, label="no exception"):
        """The call must return normally."""
        if out.ok:
            self.ensure(label, True)
            return out.value
        self._unexpected(out.exc, label)

    def _unexpected(self, exc, label):
        if not loader.explicit_raise(exc):
            raise Unsupported("unmodelled %s: %s\n%s" % (type(exc).__name__, exc, _tb(exc)))
        self.c.oblige(label + " (raised %s: %s)" % (type(exc).__name__, str(exc)[:120]), core.FALSE)
        raise core.Infeasible.__mro__[0]("") if False else StopContract()

    def must_raise(self, out, types, label):
        if out.ok:
            self.c.oblige(label + " (returned normally)", core.FALSE)
            raise StopContract()
        if isinstance(out.exc, types):
            if not loader.explicit_raise(out.exc):
                raise Unsupported("unmodelled %s: %s\n%s" % (type(out.exc).__name__, out.exc, _tb(out.exc)))
            self.ensure(label, True)
            return out.exc
        self._unexpected(out.exc, label)

    # -------------------------------------------------------------- obligations
    def ensure(self, label, cond, **info):
        self.c.oblige(label, cond, **info)

    def ensure_el(self, label, got, r, nan=None, under=None):
        """Element `got` equals the real term r (or is NaN exactly when nan)."""
        if isinstance(got, SNum):
            got = got.el()
        got = got.num()
        nan = core.FALSE if nan is None else nan
        g = [got.nan == nan] if not (z3.is_false(z3.simplify(got.nan)) and z3.is_false(nan)) else []
        eq = to_real(got.r) == to_real(r)
        g.append(z3.Implies(z3.Not(nan), eq) if not z3.is_false(nan) else eq)
        for k, x in enumerate(g):
            tag = "" if len(g) == 1 else (" [nan]" if k == 0 else " [value]")
            self.c.oblige(label + tag, z3.Implies(under, x) if under is not None else x)

    def ensure_shape(self, label, arr, dims):
        if not isinstance(arr, SArr):
            self.c.oblige(label + " (not an array)", core.FALSE)
            raise StopContract()
        if len(arr.dims) != len(dims):
            self.c.oblige(label + " (%d dimensions)" % len(arr.dims), core.FALSE)
            raise StopContract()
        cond = [dimz(a) == dimz(dim_norm(b)) for a, b in zip(arr.dims, dims)]
        self.c.oblige(label, z3.And(*cond) if cond else core.TRUE)

    def ensure_dtype(self, label, x, dt):
        d = getattr(x, "dt", None)
        self.c.oblige(label, z3.BoolVal(d is not None and d == rnp.dtype(dt)))


class StopContract(Exception):
    """The failing obligation is recorded; the rest of the contract does not apply on this path."""


def _tb(exc):
    return "".join(traceback.format_tb(exc.__traceback__)[-4:])


# ------------------------------------------------------------------------------ running
def _monitor(functions):
    """Record which functions of the code under test are entered (by their real source position)."""
    mon = sys.monitoring
    tool = 3
    base = os.path.join(loader.REPO, "pyspectral")

    def start(code, off):
        if code.co_filename.startswith(base) and not code.co_name.startswith("_dv") and \
                not code.co_name.startswith("<"):
            functions[os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname.replace(".<locals>", "")] = 1
        return mon.DISABLE
    try:
        mon.use_tool_id(tool, "dv")
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)
    except ValueError:
        pass


def _unmonitor():
    try:
        sys.monitoring.set_events(3, 0)
        sys.monitoring.free_tool_id(3)
    except ValueError:
        pass


def _val(m, e):
    x = m.eval(e, model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return str(x)


def model_inputs(inputs, m):
    out = {}
    for name, ent in inputs.items():
        try:
            if ent[0] in ("int", "bool"):
                out[name] = _val(m, ent[1])
            elif ent[0] == "num":
                out[name] = None if _val(m, ent[2]) is True else _val(m, ent[1])
            elif ent[0] == "str":
                z = ent[1]
                s = None
                from dv.values import _LITS
                for lit, t in _LITS.items():
                    if z3.is_true(m.eval(t == z, model_completion=True)):
                        s = lit
                        break
                out[name] = s if s is not None else "s_" + str(m.eval(z, model_completion=True)).replace("!", "_")
            elif ent[0] == "arr":
                a = ent[1]
                el = []
                for idx, e in list(a._memo.values()):
                    v = _val(m, e.b) if e.b is not None else (None if _val(m, e.nan) is True else _val(m, e.r))
                    el.append([[_val(m, i) for i in idx], v])
                out[name] = {"dims": [d if isinstance(d, int) else _val(m, d) for d in a.dims], "elems": el}
        except z3.Z3Exception:
            pass
    return out


def run_contract(con, budget, ms=None):
    """-> JSON-able result dict."""
    t0 = time.time()
    deadline = t0 + budget
    ms = ms or con.ms
    functions = {}
    res = dict(contract=con.name, about=con.about, status="proved", obligations=[], reason="", failed=[])
    prover.reset()
    _monitor(functions)

    def go():
        v = V()
        try:
            con.fn(v)
        except StopContract:
            pass
    try:
        c, paths = core.explore(go, deadline=deadline, max_paths=con.max_paths)
    except core.EngineStop as e:
        _unmonitor()
        res.update(status="unsupported", reason="%s: %s" % (type(e).__name__, str(e)[:1500]),
                   functions=sorted(functions), wall=time.time() - t0)
        return res
    finally:
        _unmonitor()
    sym_t = time.time() - t0
    res["paths"] = len(paths)
    res["feasibility_queries"] = c.feas_queries
    live = 0
    seen = {}
    nob = disch = 0
    backends = {}
    for p in paths:
        if prover.quick_sat(p.pc, p.facts, 2000) == "unsat":
            continue
        live += 1
        for ob in p.obligations:
            nob += 1
            core.set_ctx(c)
            key = (ob.label, ob.goal.get_id(), tuple(x.get_id() for x in ob.pc), len(ob.facts))
            if time.time() > deadline:
                st, be, m = "unknown", "time limit", None
            elif key in seen:
                st, be, m = seen[key]
            else:
                st, be, m = discharge(ob, ms)
                if st == "refuted" and (ob.info.get("exists") or ob.undecided):
                    st = "unknown"  # the witnesses offered do not fit: says nothing about others
                seen[key] = (st, be, m)
            backends[be] = backends.get(be, 0) + 1
            if st == "proved":
                disch += 1
            else:
                mi = {}
                if m is not None:
                    mi = model_inputs(ob.inputs, m)
                res["failed"].append(dict(label=ob.label, status=st, backend=be, model=mi,
                                          goal=str(ob.goal)[:1500],
                                          path=[str(x)[:200] for x in ob.pc][:30]))
    res["n_obligations"], res["n_discharged"], res["backends"] = nob, disch, backends
    res["live_paths"] = live
    res["labels"] = sorted({ob.label for p in paths for ob in p.obligations})
    res["functions"] = sorted(functions)
    res["solver"] = {k: [n, round(t, 3)] for k, (n, t) in prover.STATS.items()}
    if live == 0 or nob == 0:
        res["status"] = "vacuous"
        res["reason"] = "no feasible path or no obligation"
    elif any(f["status"] == "refuted" for f in res["failed"]):
        res["status"] = "refuted"
    elif res["failed"]:
        res["status"] = "unknown"
        res["reason"] = "; ".join(sorted({f["label"] for f in res["failed"]}))[:500]
    res["symbolic_s"] = round(sym_t, 3)
    res["wall"] = round(time.time() - t0, 3)
    return res


def discharge(ob, ms):
    hyps = ob.pc + ob.facts
    if z3.is_false(z3.simplify(ob.goal)):
        r = prover.quick_sat(ob.pc, ob.facts, ms)
        if r == "unsat":
            return "proved", "z3", None
        if ob.trapz:  # the path itself may be excluded by the trapezoid lemmas
            lem, undecided = shims.trz_lemmas(hyps, ob.goal, ob.trapz)
            if lem and prover.prove(hyps + lem, ob.goal, ms)[0] == "proved":
                return "proved", "z3+trapezoid-lemmas", None
            if undecided:
                return "unknown", "z3", None
        if r == "sat":
            _, m, _ = prover._z3_unsat(hyps, ms, model=True)
            return "refuted", "z3", m
        return "unknown", "z3", None
    trz = ob.trapz
    goal, hyps = ob.goal, list(hyps)
    while z3.is_implies(goal):
        hyps.append(goal.arg(0))
        goal = goal.arg(1)
    if trz and shims.trz_relevant(hyps, goal, trz):
        lem, undecided = shims.trz_lemmas(hyps, goal, trz, positivity=False)
        st, be, m = prover.prove(hyps + lem, goal, ms)
        if st != "proved":
            lem2, u2 = shims.trz_lemmas(hyps + lem, goal, trz)
            if len(lem2) > len(lem):
                lem, undecided = lem2, undecided or u2
                st, be, m = prover.prove(hyps + lem, goal, ms)
        if st == "refuted" and undecided:
            st = "unknown"  # a lemma premise was not decided: the model may be spurious
        return st, be + ("+trapezoid-lemmas" if lem and st == "proved" else ""), m
    st, be, m = prover.prove(hyps, goal, ms)
    if st != "proved" and trz:
        lem, undecided = shims.trz_lemmas(hyps, goal, trz)
        if lem:
            st, be, m = prover.prove(hyps + lem, goal, ms)
            be += "+trapezoid-lemmas" if st == "proved" else ""
        if st == "refuted" and undecided:
            st = "unknown"
    return st, be, m


def trz_linear(v, label, total, parts, x):
    """Linearity of the trapezoid rule: total(j) = sum of coef * part(j) at every node (an obligation), hence
    T(total) = sum of coef * T(part).  parts: [(coefficient without j, array)].  -> the terms T(part)"""
    j = z3.Int(v.c.fresh("jl"))
    s = sum((k * a.elem(j).r for k, a in parts[1:]), parts[0][0] * parts[0][1].elem(j).r)
    n = dimz(x.dims[0])
    v.ensure(label, z3.Implies(z3.And(j >= 0, j < n), to_real(total.elem(j).r) == s))
    t = [shims.trapezoid(a, x).r for _, a in parts]
    tt = shims.trapezoid(total, x).r
    v.c.fact(tt == sum((k * y for (k, _), y in zip(parts[1:], t[1:])), parts[0][0] * t[0]))
    return tt, t
