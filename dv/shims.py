"""Contracts assumed for the numeric dependencies (numpy, dask.array, scipy, xarray)."""
import types
from fractions import Fraction

import numpy as rnp
import z3

from dv import core, prover
from dv.core import Unsupported, ctx, modelled
from dv.values import (B1, F8, I8, El, NdIndex, NanExt, NdSelected, NdSelect, Opaque, Q, SArr, SBool, SDtype, SNum, SStr,
                       SType, bcast_dims, bidx, binop, cast_any, cast_el, clip, dim_eq, dim_norm, dim_py, dimz, el_if,
                       el_of, ew, exact, fit, from_concrete, getitem, lift, logical, mkbool, nonzero, result_dt, rv,
                       to_real, undt)


def symbolic(*xs):
    for x in xs:
        if isinstance(x, (SArr, SNum, SBool, SStr, NdSelected)):
            return True
        if isinstance(x, (list, tuple)) and symbolic(*x):
            return True
    return False


def _fdt(x):
    dt = result_dt(x)
    return dt if dt.kind == "f" else F8


def unary(elfn, a, dt=None):
    """Elementwise float function."""
    dt = dt or _fdt(a)
    if isinstance(a, NdSelected):
        nd = a.nd
        return NdSelected(a.sel, lambda *i: elfn(fit(nd(*i).num(), F8)), a.dt, a.maskfn)
    if isinstance(a, (SNum, int, float, rnp.generic)):
        e = elfn(fit(el_of(a).num(), F8))
        return SNum(e.r, e.nan, dt)
    return ew(lambda x: elfn(fit(x.num(), F8)), a, dtype=dt)


def f_exp(a): return unary(lambda x: El(prover.EXP(x.r), x.nan), a)
def f_log(a): return unary(lambda x: El(prover.LOG(x.r), z3.Or(x.nan, x.r < 0)), a)
def f_log1p(a): return unary(lambda x: El(prover.LOG(x.r + 1), z3.Or(x.nan, x.r < -1)), a)
def f_expm1(a): return unary(lambda x: El(prover.EXP(x.r) - 1, x.nan), a)
def f_cos(a): return unary(lambda x: El(prover.COS(x.r), x.nan), a)
def f_sin(a): return unary(lambda x: El(prover.COS(x.r - prover.PI / 2), x.nan), a)
def f_arccos(a): return unary(lambda x: El(prover.ACOS(x.r), z3.Or(x.nan, x.r > 1, x.r < -1)), a)
def f_deg2rad(a): return unary(lambda x: El(x.r * prover.PI / 180, x.nan), a)
def f_rad2deg(a): return unary(lambda x: El(x.r * 180 / prover.PI, x.nan), a)
def f_sqrt(a): return unary(lambda x: El(prover.SQRT(x.r), z3.Or(x.nan, x.r < 0)), a)


def f_isnan(a, out=None):
    if isinstance(a, (SNum, int, float, rnp.generic)):
        return mkbool(el_of(a).num().nan)
    return _out(ew(lambda x: El(b=x.num().nan), a, dtype=B1), out)


def f_isfinite(a):
    r = f_isnan(a)
    return ~r if not isinstance(r, bool) else not r


def f_abs(a):
    if isinstance(a, (SNum, SArr)):
        return abs(a)
    if isinstance(a, Q):
        return abs(a)
    return rnp.abs(a)


def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    n = el_of(nan)
    return unary(lambda x: El(z3.If(x.nan, to_real(n.r), x.r)), a) if symbolic(a) else rnp.nan_to_num(a)


def _out(res, out):
    if out is None:
        return res
    if isinstance(out, tuple):
        out = out[0]
    if out.kind == "dask" or res.kind == "dask":
        # dask: handle_out replaces the target's graph
        if out.kind != "dask":
            raise Unsupported("out= numpy with dask result")
        out._elem, out._memo, out.hooks, out.dt = res._elem_frozen(), {}, [], res.dt
        out.version += 1
        return out
    out.overwrite(res)
    return out


def mk_bin(op):
    def f(a, b, out=None, dtype=None, where=True, **kw):
        if where is not True or kw:
            raise Unsupported("ufunc options")
        if not symbolic(a, b):
            if op == "div":
                return rnp.divide(a, b)
            return getattr(rnp, {"add": "add", "sub": "subtract", "mul": "multiply", "pow": "power", "lt": "less",
                                 "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal",
                                 "ne": "not_equal", "min": "minimum", "max": "maximum"}[op])(a, b)
        # numpy functions never use python number semantics
        if not isinstance(a, (SArr, NdSelected)) and not isinstance(b, (SArr, NdSelected)):
            ea, eb = el_of(a), el_of(b)
            if op in ("lt", "le", "gt", "ge", "eq", "ne"):
                return binop(op, a, b)
            from dv.values import _arith
            dt = result_dt(a, b)
            if op == "div" and dt.kind != "f":
                dt = F8
            r = fit(_arith(op, ea, eb), dt)
            return SNum(r.r, r.nan, dt)
        if isinstance(a, (list, tuple)):
            a = lift(a)
        if isinstance(b, (list, tuple)):
            b = lift(b)
        return _out(binop(op, a, b), out)
    return f


def mk_log(op):
    def f(*args, out=None, **kw):
        if kw:
            raise Unsupported("ufunc options")
        if not symbolic(*args):
            return {z3.And: rnp.logical_and, z3.Or: rnp.logical_or, z3.Xor: rnp.logical_xor}[op](*args)
        args = [lift(a) if isinstance(a, (list, tuple)) else a for a in args]
        r = logical(op, *args)
        return _out(r, out) if out is not None else r
    return f


def f_logical_not(a):
    if isinstance(a, SArr):
        return logical(lambda x: z3.Not(x), a)
    return mkbool(z3.Not(core.as_bool(a)))


def f_where(cond, *xy):
    if not xy:
        if not symbolic(cond):
            return rnp.where(cond)
        return nonzero(cond)
    a, b = xy
    if not symbolic(cond, a, b):
        return rnp.where(cond, a, b)
    for x in (cond, a, b):
        if isinstance(x, (list, tuple, NdSelected)):
            raise Unsupported("where on list")
    dt = result_dt(a, b)

    def f(c, x, y):
        return fit(el_if(c.boolean(), x, y), dt)
    return ew(f, cond, a, b, dtype=dt) if isinstance(cond, SArr) or isinstance(a, SArr) or isinstance(b, SArr) else \
        as0d(f(El(b=core.as_bool(cond)), el_of(a), el_of(b)), dt)


def as0d(e, dt):
    return SArr((), lambda: e, dt)


def f_zeros_like(a, dtype=None, **kw):
    a = lift(a)
    dt = undt(dtype) or a.dt
    z = El(z3.RealVal(0) if dt.kind == "f" else z3.IntVal(0)) if dt.kind != "b" else El(b=core.FALSE)
    return SArr(a.dims, lambda *i: z, dt, a.kind)


def f_ones_like(a, dtype=None, **kw):
    a = lift(a)
    dt = undt(dtype) or a.dt
    z = El(z3.RealVal(1) if dt.kind == "f" else z3.IntVal(1))
    return SArr(a.dims, lambda *i: z, dt, a.kind)


def f_full_like(a, v, dtype=None, **kw):
    a = lift(a)
    dt = undt(dtype) or a.dt
    e = cast_el(el_of(v), dt)
    return SArr(a.dims, lambda *i: e, dt, a.kind)


def f_full(shape, v, dtype=None, **kw):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dt = undt(dtype) or (F8 if not isinstance(v, SNum) or v.dt is None else v.dt)
    e = cast_el(el_of(v), dt)
    return SArr([dim_norm(s) for s in shape], lambda *i: e, dt)


def f_zeros(shape, dtype=float, **kw):
    return f_full(shape, 0, dtype)


def f_ones(shape, dtype=float, **kw):
    return f_full(shape, 1, dtype)


def f_asanyarray(x, dtype=None, **kw):
    if isinstance(x, SArr):
        if x.kind == "xarray":
            x = x.data
        return x if dtype is None else x.astype(dtype)
    if symbolic(x):
        r = lift(x)
        return r if dtype is None else r.astype(dtype)
    return rnp.asanyarray(x, dtype=undt(dtype))


def f_array(x, dtype=None, copy=True, **kw):
    if isinstance(x, SArr):
        if x.kind in ("xarray", "dask"):
            raise Unsupported("np.array on lazy array")
        x = x.copy()
        return x if dtype is None else x.astype(dtype)
    if symbolic(x):
        r = lift(x)
        return r if dtype is None else r.astype(dtype)
    return rnp.array(x, dtype=undt(dtype))


def f_atleast_2d(a):
    a = lift(a)
    if a.ndim == 2:
        return a
    if a.ndim == 1:
        return SArr((1, a.dims[0]), lambda i, j: a.elem(j), a.dt, a.kind, None, a.base if a.base is not None and a.base[0] == "flat" else None)
    if a.ndim == 0:
        return SArr((1, 1), lambda i, j: a.elem(), a.dt, a.kind)
    return a


def f_atleast_1d(a):
    a = lift(a)
    return a if a.ndim else SArr((1,), lambda i: a.elem(), a.dt, a.kind)


class VStack(SArr):
    rows = None


def f_vstack(arrs, **kw):
    arrs = [lift(a) for a in arrs]
    if any(a.ndim != 1 for a in arrs):
        raise Unsupported("vstack of non 1-d")
    n = arrs[0].dims[0]
    for a in arrs[1:]:
        if not dim_eq(n, a.dims[0]) and not ctx().decide(dimz(n) == dimz(a.dims[0])):
            raise modelled(ValueError("all the input array dimensions must match"))
    dt = rnp.result_type(*[a.dt for a in arrs])

    def f(i, j):
        s = z3.simplify(i)
        if not z3.is_int_value(s):
            raise Unsupported("vstack row")
        return fit(arrs[s.as_long()].elem(j), dt)
    r = VStack((len(arrs), n), f, dt, max((a.kind for a in arrs), key=lambda k: {"numpy": 0, "dask": 2}.get(k, 1)))
    r.rows = arrs
    return r


def f_diff(a, n=1):
    a = lift(a)
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


class R_:
    """np.r_[...] concatenation."""

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return concat(key)


def concat(parts, axis=0, **kw):
    if axis != 0:
        raise Unsupported("concatenate axis")
    ps = []
    for p in parts:
        a = lift(p)
        if a.ndim == 0:
            a = SArr((1,), (lambda a: lambda i: a.elem())(a), a.dt)
        if a.ndim != 1:
            raise Unsupported("concatenate nd")
        ps.append(a)
    dt = rnp.result_type(*[p.dt for p in ps])
    offs, tot = [], z3.IntVal(0)
    for p in ps:
        offs.append(z3.simplify(tot))
        tot = tot + dimz(p.dims[0])

    def f(i):
        e = None
        for p, o in reversed(list(zip(ps, offs))):
            si = z3.simplify(i - o)
            pe = p.elem(si)
            if dt.kind != "b":
                pe = fit(pe, dt)
            e = pe if e is None else el_if(i < o + dimz(p.dims[0]), pe, e)
        return e
    return SArr((dim_norm(z3.simplify(tot)),), f, dt)


def f_argsort(a, axis=-1, kind=None, **kw):
    """A permutation P of the index range such that a[P] is non-decreasing (ties in any order
    unless kind is stable); NaN excluded by the caller's precondition."""
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    c = ctx()
    n = len(c.__dict__.setdefault("perm_n", []))
    c.perm_n.append(a)
    P = z3.Function("perm!%d" % n, z3.IntSort(), z3.IntSort())
    Pi = z3.Function("perminv!%d" % n, z3.IntSort(), z3.IntSort())
    N = dimz(a.dims[0])
    r = SArr((a.dims[0],), lambda i: El(P(i)), I8)
    seen = []

    def hook(idx, e):
        i = idx[0]
        inr = z3.And(i >= 0, i < N)
        c.fact(z3.Implies(inr, z3.And(P(i) >= 0, P(i) < N, Pi(P(i)) == i)))
        vi = a.elem(P(i)).r
        for j in seen:
            inj = z3.And(j >= 0, j < N)
            vj = a.elem(P(j)).r
            c.fact(z3.Implies(z3.And(inr, inj, i < j), vi <= vj))
            c.fact(z3.Implies(z3.And(inr, inj, j < i), vj <= vi))
            if kind in ("stable", "mergesort"):
                c.fact(z3.Implies(z3.And(inr, inj, i < j, vi == vj), P(i) < P(j)))
                c.fact(z3.Implies(z3.And(inr, inj, j < i, vi == vj), P(j) < P(i)))
        seen.append(i)
    r.add_hook(hook)

    def surj(j):
        """index i of the sorted order holding source index j"""
        i = Pi(j)
        c.fact(z3.Implies(z3.And(j >= 0, j < N), z3.And(i >= 0, i < N, P(i) == j)))
        r.elem(i)
        return i
    r.surj = surj
    c.__dict__.setdefault("perms", {})[(c.npaths, n)] = r
    c.last_perm = r
    return r


def all_true(mask):
    """Is the mask provably true at every index (generic index, under the path's hypotheses)?"""
    c = ctx()
    i = c.int("gen")
    inr = z3.And(i >= 0, i < dimz(mask.dims[0]))
    b = mask.elem(i).b
    st = prover.prove(list(c.pc) + list(c.facts) + [inr], b, 3000, use_cvc5=False)[0]
    return st == "proved"


def f_repeat(a, reps, axis=None):
    """np.repeat with a boolean array of repetitions selects; other uses are not modelled."""
    if axis is None and isinstance(reps, SArr) and reps.dt.kind == "b":
        if reps.ndim == 1 and lift(a).ndim == 1 and all_true(reps):
            return lift(a).copy()
        return getitem(lift(a), reps)
    raise Unsupported("repeat")


def f_linspace(start, stop, num=50, endpoint=True, **kw):
    if kw or not isinstance(endpoint, bool):
        raise Unsupported("linspace options")
    if not symbolic(start, stop, num) and not any(isinstance(x, Q) for x in (start, stop)):
        return rnp.linspace(start, stop, num, endpoint=endpoint)
    n = dim_norm(num)
    a, b = to_real(el_of(start).r), to_real(el_of(stop).r)
    nz = z3.ToReal(dimz(n))
    if not endpoint:
        return SArr((n,), lambda i: El(a + z3.ToReal(i) * (b - a) / nz), F8)

    def f(i):
        return El(z3.If(dimz(n) == 1, a, a + z3.ToReal(i) * (b - a) / (nz - 1)))
    r = SArr((n,), f, F8)
    c = ctx()

    def hook(idx, e):  # elements lie between the end points
        i = idx[0]
        inr = z3.And(i >= 0, i < dimz(n))
        c.fact(z3.Implies(z3.And(inr, a <= b), z3.And(a <= e.r, e.r <= b)))
        c.fact(z3.Implies(z3.And(inr, a >= b), z3.And(b <= e.r, e.r <= a)))
    r.add_hook(hook)
    return r


def f_arange(*a, **kw):
    if not symbolic(*a):
        if len(a) == 3 and not kw and any(isinstance(x, Q) for x in a):
            lo, hi, st = [exact(x) for x in a]
            if st > 0:
                n = max(0, -((lo - hi) // st))
                return SArr((int(n),), lambda i: El(rv(lo) + z3.ToReal(i) * rv(st)), F8)
        return rnp.arange(*[float(x) if isinstance(x, Q) else x for x in a], **kw)
    if len(a) == 1 and isinstance(a[0], SNum):
        return SArr((dim_norm(a[0]),), lambda i: El(i), I8)
    if len(a) != 3:
        raise Unsupported("arange")
    lo, hi, st = [to_real(el_of(x).r) for x in a]
    if not ctx().decide(st > 0):
        raise Unsupported("arange with non-positive step")
    c = ctx()
    n = c.int("narange")
    # n = ceil((hi-lo)/step)
    c.fact(z3.And(n >= 0, z3.Or(n == 0, lo + z3.ToReal(n - 1) * st < hi), lo + z3.ToReal(n) * st >= hi))
    return SArr((n,), lambda i: El(lo + z3.ToReal(i) * st), F8)


def f_searchsorted(a, v, side="left", **kw):
    a = lift(a)
    if not isinstance(v, (SNum, int, float)) or a.ndim != 1:
        raise Unsupported("searchsorted")
    c = ctx()
    n = dimz(a.dims[0])
    k = c.int("ss")
    x = to_real(el_of(v).r)
    c.fact(z3.And(k >= 0, k <= n))

    def hook(idx, e):
        i = idx[0]
        inr = z3.And(i >= 0, i < n)
        if side == "left":
            c.fact(z3.Implies(z3.And(inr, i < k), to_real(e.r) < x))
            c.fact(z3.Implies(z3.And(inr, i >= k), to_real(e.r) >= x))
        else:
            c.fact(z3.Implies(z3.And(inr, i < k), to_real(e.r) <= x))
            c.fact(z3.Implies(z3.And(inr, i >= k), to_real(e.r) > x))
    a.add_hook(hook)
    return SNum(k, core.FALSE, I8)


def f_cumsum(a, axis=None, **kw):
    """Running sums S(i) = S(i-1) + a(i): one function per (structurally equal) summand array."""
    a = lift(a)
    if a.ndim != 1 or kw or axis not in (None, 0, -1) or a.kind != "numpy":
        raise Unsupported("cumsum")
    c = ctx()
    q = z3.Int("cidx0")
    n = dimz(a.dims[0])
    fz = a._elem_frozen()
    e0 = fz(q).num()
    if not z3.is_false(z3.simplify(e0.nan)):
        raise Unsupported("cumsum of values which may be NaN")
    term = z3.simplify(to_real(e0.r))
    key = (c.npaths, c.alike("cumsum", [term], [q >= 0, q < n], [n]))
    tab = c.__dict__.setdefault("cum_tab", {})
    ent = tab.get(key)
    if ent is None:
        S = z3.Function("CUMSUM!%d" % len(tab), z3.IntSort(), z3.RealSort())
        c.fact(z3.Implies(n >= 1, S(z3.IntVal(0)) == to_real(fz(z3.IntVal(0)).num().r)))
        w = z3.Int(c.fresh("cumidx"))
        inr = z3.And(w >= 0, w < n)
        ew = to_real(fz(w).num().r)
        nonneg = c.feasible(z3.And(inr, ew < 0)) == "unsat"
        nonpos = not nonneg and c.feasible(z3.And(inr, ew > 0)) == "unsat"
        ent = tab[key] = (S, [], nonneg, nonpos)
    S, seen, nonneg, nonpos = ent

    def hook(idx, e):
        i = idx[0]
        if any(z3.eq(i, j) for j in seen):
            return
        c.fact(z3.Implies(z3.And(i >= 1, i < n), S(i) == S(i - 1) + to_real(fz(i).num().r)))
        if nonneg or nonpos:  # sums of values of one sign are monotone (lemma by induction)
            for j in seen:
                lo, hi = (S(i), S(j)) if nonneg else (S(j), S(i))
                c.fact(z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n, i <= j), lo <= hi))
                c.fact(z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n, j <= i), hi <= lo))
        seen.append(i)
    r = SArr(a.dims, lambda i: El(S(i), core.FALSE), a.dt if a.dt.kind == "f" else (I8 if a.dt.kind in "biu" else F8))
    r.add_hook(hook)
    return r


def f_sum(a, axis=None, **kw):
    a = lift(a)
    if a.ndim != 1 or kw or axis not in (None, 0, -1) or a.kind != "numpy":
        raise Unsupported("sum")
    if a.dt.kind == "b":
        return f_count_nonzero(a)
    r = f_cumsum(a)
    n = dimz(a.dims[0])
    if ctx().decide(n <= 0):
        return SNum(z3.RealVal(0), core.FALSE, r.dt)
    return SNum(r.elem(n - 1).r, core.FALSE, r.dt)


def f_argext(which):
    def f(a, axis=None, **kw):
        """First index of the extremum of a 1-d array."""
        a = lift(a)
        if a.ndim != 1 or kw or axis not in (None, 0, -1) or a.kind == "dask" or a.maskfn is not None:
            raise Unsupported("argmax/argmin")
        c = ctx()
        n = dimz(a.dims[0])
        if c.decide(n <= 0):
            raise modelled(ValueError("attempt to get argmax of an empty sequence"))
        k = c.int("arg" + which)
        c.fact(z3.And(k >= 0, k < n))
        fz = a._elem_frozen()

        def val(i):
            e = fz(i)
            if e.b is not None:
                return z3.If(e.b, z3.RealVal(1), z3.RealVal(0))
            if not z3.is_false(z3.simplify(e.nan)):
                raise Unsupported("argmax of values which may be NaN")
            return to_real(e.r)
        m = val(k)

        def inst(i):
            x = val(i)
            better = m >= x if which == "max" else m <= x
            c.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(better, z3.Implies(i < k, x != m))))
        inst(z3.IntVal(0))
        c.__dict__.setdefault("arg_inst", []).append((c.npaths, lambda i: (inst(i), inst(n - 1 - i))))
        return SNum(k, core.FALSE, I8)
    return f


def f_count_nonzero(a, axis=None, **kw):
    a = lift(a)
    if a.ndim != 1 or kw or axis not in (None, 0, -1) or a.maskfn is not None or a.kind == "dask":
        raise Unsupported("count_nonzero")
    return SNum(nonzero(a)[0].dims[0], core.FALSE, I8)


def f_nanext(which):
    def f(a, *x, **k):
        return Opaque("nan" + which) if x or k or not isinstance(a, SArr) else NanExt(a, which)
    return f


def f_max(a, *x, **k): return lift(a).max(*x, **k)
def f_min(a, *x, **k): return lift(a).min(*x, **k)


def f_isscalar(x):
    if isinstance(x, (SNum, SStr)):
        return True
    if isinstance(x, SArr):
        return False
    return rnp.isscalar(x)


class ErrState:
    def __init__(self, **kw): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


class KindMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SArr) and x.kind in cls.kinds or (cls.real is not None and isinstance(x, cls.real))


class NDArray(metaclass=KindMeta):
    kinds = ("numpy", "masked")
    real = rnp.ndarray


class MaskedArray(metaclass=KindMeta):
    kinds = ("masked",)
    real = rnp.ma.MaskedArray


class DaArray(metaclass=KindMeta):
    kinds = ("dask",)
    real = None


class XrDataArray(metaclass=KindMeta):
    kinds = ("xarray",)
    real = None

    def __new__(cls, data, coords=None, dims=None, name=None, attrs=None):
        if not isinstance(data, SArr) or data.kind not in ("numpy", "dask", "xarray"):
            raise Unsupported("xarray.DataArray of this data")
        r = data.like(data._elem_frozen(), kind="xarray")
        if data.kind == "xarray":
            r.chunksz, r.attrs_, r.labels_ = data.chunksz, data.attrs_, dict(data.labels_ or {})
        else:
            r.chunksz = data.kind == "dask"
            r.attrs_, r.labels_ = {}, {"dims": "default dims", "coords": "default coords", "name": None}
        for k, x in (("dims", dims), ("coords", coords), ("name", name)):
            if x is not None:
                r.labels_[k] = x
        if attrs is not None:
            r.attrs_ = dict(attrs)
        return r


class ShimModule(types.ModuleType):
    """A module whose unmodelled attributes stop the engine (never a silent wrong answer)."""

    def __init__(self, name, real=None, /, **attrs):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        real = self.__dict__.get("_real")
        if real is not None and not hasattr(real, name):
            raise AttributeError("module %s has no attribute %s" % (self.__name__, name))
        raise Unsupported("%s.%s is not modelled" % (self.__name__, name))


def scalar_type(dt):
    return SType(dt)


def f_masked_invalid(a, copy=True):
    a = lift(a)
    f, old = a._elem_frozen(), a.maskfn
    m = (lambda *i: f(*i).nan) if old is None else (lambda *i: z3.Or(old(*i), f(*i).nan))
    return SArr(a.dims, f, a.dt, "masked", m)


def f_masked_where(cond, a, copy=True):
    a, cond = lift(a), lift(cond)
    f, old = a._elem_frozen(), a.maskfn
    cf = cond._elem_frozen()
    m = (lambda *i: cf(*i).boolean()) if old is None else (lambda *i: z3.Or(old(*i), cf(*i).boolean()))
    return SArr(a.dims, f, a.dt, "masked", m)


def f_getmaskarray(a):
    a = lift(a)
    m = a.maskfn
    return SArr(a.dims, (lambda *i: El(b=m(*i))) if m is not None else (lambda *i: El(b=core.FALSE)), B1)


class MaskedArrayShim:
    """np.ma functions (mask aware where)."""


def f_ma_where(cond, *xy):
    """np.ma.where: masked condition elements are not selected."""
    if xy:
        raise Unsupported("np.ma.where with 3 arguments")
    if isinstance(cond, SArr) and cond.maskfn is not None:
        m, f = cond.maskfn, cond._elem_frozen()
        cond = SArr(cond.dims, lambda *i: El(b=z3.And(f(*i).boolean(), z3.Not(m(*i)))), B1)
    return nonzero(cond)


NP_FUNCS = dict(
    exp=f_exp, log=f_log, log1p=f_log1p, expm1=f_expm1, cos=f_cos, sin=f_sin, arccos=f_arccos, deg2rad=f_deg2rad,
    radians=f_deg2rad, rad2deg=f_rad2deg, degrees=f_rad2deg, sqrt=f_sqrt, isnan=f_isnan, isfinite=f_isfinite,
    abs=f_abs, absolute=f_abs, fabs=f_abs, nan_to_num=f_nan_to_num, where=f_where, zeros_like=f_zeros_like,
    ones_like=f_ones_like, full_like=f_full_like, full=f_full, zeros=f_zeros, ones=f_ones,
    logical_or=mk_log(z3.Or), logical_and=mk_log(z3.And), logical_xor=mk_log(z3.Xor), logical_not=f_logical_not,
    clip=lambda a, a_min=None, a_max=None, out=None, **kw: clip(a, kw.get("min", a_min), kw.get("max", a_max)),
    asanyarray=f_asanyarray, asarray=f_asanyarray, array=f_array, searchsorted=f_searchsorted,
    atleast_2d=f_atleast_2d, atleast_1d=f_atleast_1d, isscalar=f_isscalar, max=f_max, min=f_min, amax=f_max,
    amin=f_min, argsort=f_argsort, diff=f_diff, vstack=f_vstack, repeat=f_repeat, linspace=f_linspace,
    arange=f_arange, cumsum=f_cumsum, sum=f_sum, count_nonzero=f_count_nonzero, argmax=f_argext("max"), argmin=f_argext("min"), concatenate=concat, nonzero=lambda a: nonzero(a),
    ravel=lambda a: lift(a).ravel(), reshape=lambda a, s: lift(a).reshape(s),
    flip=lambda a, axis=None: lift(a)[::-1], copy=lambda a: lift(a).copy(),
    flatnonzero=lambda a: nonzero(lift(a).ravel())[0], square=lambda a: a * a, power=mk_bin("pow"),
    reciprocal=lambda a: mk_bin("div")(1.0, a), negative=lambda a: -a,
    all=lambda a, *x: lift(a).all(), any=lambda a, *x: lift(a).any(),
    broadcast_to=None,
    transpose=lambda a: lift(a).T, compress=lambda c, a: getitem(lift(a), lift(c)),
    extract=lambda c, a: getitem(lift(a), lift(c)), take=lambda a, i: getitem(lift(a), i),
    size=lambda a: lift(a).size, shape=lambda a: lift(a).shape, ndim=lambda a: lift(a).ndim,
)
NP_FUNCS.pop("broadcast_to")
for _n, _o in dict(add="add", subtract="sub", multiply="mul", divide="div", true_divide="div", less="lt",
                   less_equal="le", greater="gt", greater_equal="ge", equal="eq", not_equal="ne", minimum="min",
                   maximum="max").items():
    NP_FUNCS[_n] = mk_bin(_o)


def _dask_result(f):
    """Functions taken from dask.array return dask arrays."""
    def g(*a, **k):
        out = k.get("out")
        if out is not None:
            return f(*a, **k)
        r = f(*[x if not isinstance(x, rnp.ndarray) else from_concrete(x) for x in a], **k)
        return to_dask(r)
    return g


def to_dask(r):
    if isinstance(r, SArr):
        if r.kind == "dask":
            return r
        if r.kind == "xarray":
            return r
        # a masked array enters the graph as its data (operations of the graph are the plain ones)
        return r.like(r._elem_frozen(), kind="dask", base=r.base, mask=None)
    if isinstance(r, tuple):
        return tuple(to_dask(x) for x in r)
    if isinstance(r, (SNum, SBool, rnp.generic)):
        a = lift(r)
        return SArr((), a._elem, a.dt, "dask")
    if isinstance(r, rnp.ndarray):
        return to_dask(from_concrete(r))
    return r


def da_asanyarray(x, **kw):
    if isinstance(x, SArr) and x.kind == "dask":
        return x
    if isinstance(x, rnp.ndarray):
        x = from_concrete(x)
    return to_dask(f_asanyarray(x))


def map_blocks(f, *args, **kw):
    kw = dict(kw)
    dtype = kw.pop("dtype", None)
    meta = kw.pop("meta", None)
    chunks = kw.pop("chunks", None)
    for k in ("name", "token"):
        kw.pop(k, None)
    if "drop_axis" in kw or "new_axis" in kw:
        raise Unsupported("map_blocks drop/new axis")
    arrs = [a for a in args if isinstance(a, SArr) and a.kind == "dask"]
    if not arrs or all(hasattr(a, "lazy") for a in arrs):
        memo = []

        def lazy():  # one block holding everything
            if not memo:
                memo.append(f(*[a.lazy() if isinstance(a, SArr) and a.kind == "dask" else a for a in args], **kw))
            return memo[0]
        src = [a for a in args if isinstance(a, SArr)]
        d = SArr(src[0].dims if src else (), lambda *i: lazy().elem(*i),
                 undt(dtype) or (src[0].dt if src else F8), "dask")
        d.lazy = lazy
        return d
    dims = bcast_dims(arrs)
    c = ctx()

    def run(idx):
        off = [c.int("off") for _ in dims]
        bd = [c.int("blk") for _ in dims]
        for o, b, d in zip(off, bd, dims):
            c.fact(z3.And(o >= 0, b >= 1, o + b <= dimz(d)))
        if idx is not None:
            for o, b, i in zip(off, bd, idx):
                c.fact(z3.And(i >= o, i < o + b))
        bargs = []
        for a in args:
            if isinstance(a, SArr) and a.kind == "dask":
                k = len(dims) - a.ndim

                def el(*l, a=a, k=k):
                    gi = [z3.simplify(x + off[k + q]) for q, x in enumerate(l)]
                    return a.elem(*[z3.IntVal(0) if isinstance(a.dims[q], int) and a.dims[q] == 1 else g
                                    for q, g in enumerate(gi)])
                bdims = [1 if isinstance(d, int) and d == 1 else bd[k + q] for q, d in enumerate(a.dims)]
                bargs.append(SArr(bdims, el, a.__dict__.get("actual_dt") or a.dt, "numpy"))
            else:
                bargs.append(a)
        out = f(*bargs, **kw)
        if isinstance(out, (SNum,)):
            raise Unsupported("map_blocks function returning a scalar")
        if not isinstance(out, SArr) or out.ndim != len(dims):
            raise Unsupported("map_blocks function changing dimensionality")
        for d, b in zip(out.dims, bd):
            if not dim_eq(dim_norm(d), b) and not (isinstance(d, int) and d == 1):
                if not c.decide(dimz(d) == b):
                    raise Unsupported("map_blocks function changing the block shape")
        return out, off
    out0, _ = run(None)
    cache = {}

    def elem(*idx):
        key = tuple(i.get_id() for i in idx)
        if key not in cache:
            out, off = run(idx)
            cache[key] = (idx, out.elem(*[z3.simplify(i - o) for i, o in zip(idx, off)]))
        return cache[key][1]
    r = SArr(dims, elem, undt(dtype) or (meta.dtype if isinstance(meta, rnp.ndarray) else None) or out0.dt, "dask")
    r.actual_dt = out0.dt
    return r


# ------------------------------------------------------------------------ trapezoid
J0 = z3.Int("J!trz")


def _split(e, j):
    """(coefficient without j, rest) with e = coefficient * rest."""
    if not _mentions(e, j):
        return e, z3.RealVal(1)
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            c, r = None, None
            for ch in e.children():
                a, b = _split(ch, j)
                c = a if c is None else c * a
                r = b if r is None else r * b
            return c, r
        if k == z3.Z3_OP_DIV:
            a, b = _split(e.arg(0), j)
            p, q = _split(e.arg(1), j)
            return a / p, b / q
        if k == z3.Z3_OP_UMINUS:
            a, b = _split(e.arg(0), j)
            return -a, b
    return z3.RealVal(1), e


def _mentions(e, j):
    return any(z3.eq(t, j) for t in prover.subterms([e]))


class TrzApp:
    def __init__(self, app, y, x, xn, n, ynext=None):
        self.app, self.y, self.x, self.xn, self.n = app, y, x, xn, n


_TRZ_N = [0]


def trapezoid(y, x=None, dx=None, axis=-1):
    if not symbolic(y, x):
        from scipy.integrate import trapezoid as real
        return real(y, x)
    if x is None or dx is not None or axis not in (-1,):
        if not (axis == 1 and isinstance(y, SArr) and y.ndim == 2):
            raise Unsupported("trapezoid options")
    y, x = lift(y), lift(x)
    if x.ndim != 1:
        raise Unsupported("trapezoid with n-d x")
    c = ctx()
    ny, nx = y.dims[-1], x.dims[0]
    n = nx
    if not dim_eq(ny, nx):
        if not c.decide(dimz(ny) == dimz(nx)):
            if isinstance(ny, int) and ny == 1 or c.decide(dimz(ny) == 1):
                raise Unsupported("trapezoid broadcasting")
            raise modelled(ValueError("operands could not be broadcast together"))
    idn = c.fresh("TRZ")
    outer = y.ndim - 1
    F = z3.Function(idn, *([z3.IntSort()] * outer + [z3.RealSort()])) if outer else None
    NF = z3.Function(idn + "nan", *([z3.IntSort()] * outer + [z3.BoolSort()])) if outer else None
    JW = z3.Function(idn + "wit", *([z3.IntSort()] * outer + [z3.IntSort()])) if outer else None
    cache = {}
    dt = rnp.result_type(y.dt, x.dt, 1.0)

    def elem(*o):
        key = tuple(i.get_id() for i in o)
        if key in cache:
            return cache[key][1]
        app = F(*o) if outer else z3.Real(idn)
        nanv = NF(*o) if outer else z3.Bool(idn + "nan")
        jw = JW(*o) if outer else z3.Int(idn + "wit")
        ye, xe = y.elem(*o, J0), x.elem(J0)
        xne = x.elem(J0 + 1)
        yn = z3.Or(ye.nan, xe.nan)
        if z3.is_false(z3.simplify(yn)):
            nanv = core.FALSE
        else:
            nz = dimz(n)
            y0 = y.elem(*o, z3.IntVal(0))
            c.fact(z3.Implies(z3.And(nz >= 2, y0.nan), nanv))
            yw, xw = y.elem(*o, jw), x.elem(jw)
            c.fact(z3.Implies(nanv, z3.And(jw >= 0, jw < nz, z3.Or(yw.nan, xw.nan))))
        cy, ry = _split(z3.simplify(to_real(ye.num().r)), J0)
        cx, rx = _split(z3.simplify(to_real(xe.num().r)), J0)
        cxn, rxn = _split(z3.simplify(to_real(xne.num().r)), J0)
        ta = TrzApp(app, ry, rx, None, dimz(n))
        ta.x_full, ta.xn_full = to_real(xe.num().r), to_real(xne.num().r)
        ta.cx = cx
        c.trapz.append(ta)
        r = El(cy * cx * app, nanv)
        cache[key] = (o, r)
        return r
    if "xarray" in (y.kind, x.kind) or "masked" in (y.kind, x.kind):
        raise Unsupported("trapezoid of xarray or masked data")
    if "dask" in (y.kind, x.kind):
        c.event("compute")  # scipy converts to numpy
    if outer == 0:
        e = elem()
        return SNum(e.r, e.nan, dt)
    return SArr(y.dims[:-1], elem, dt, "numpy")


def trz_lemmas(hyps, goal, trapz, ms=3000, positivity=True):
    """Instances of the trapezoid lemmas whose pointwise premises are discharged here.

    congruence: same n, y1 = y2 and x1 = x2 at every node          => T1 = T2
    reversal:   y1(j) = y2(n-1-j), x1(j) = x2(n-1-j)               => T1 = -T2
    positivity: x strictly increasing, y > 0 (>= 0), n >= 2         => T > 0 (>= 0)
    """
    lem = []
    ids = {t.get_id() for t in prover.subterms(hyps + [goal])}
    apps = [t for t in trapz if t.app.get_id() in ids]
    log = []
    undecided = [False]

    def holds(h, g):
        st = prover.prove(h, g, ms)[0]
        if st == "unknown":
            undecided[0] = True
        return st == "proved"
    for i, a in enumerate(apps):
        inr = [J0 >= 0, J0 < a.n]
        h = hyps + inr
        for b in apps[:i]:
            if not prover_eq(a.n, b.n, hyps, ms):
                continue
            if _syneq(a.y, b.y) and _syneq(a.x, b.x) or holds(h, z3.And(a.y == b.y, a.x == b.x)):
                lem.append(a.app == b.app)
                log.append("congruence")
                continue
            rev = (J0, b.n - 1 - J0)
            yb, xb = z3.substitute(b.y, rev), z3.substitute(b.x, rev)
            hs = h + [z3.substitute(f, rev) for f in hyps if _mentions(f, J0)]
            if holds(hs, z3.And(a.y == yb, a.x == xb)):
                lem.append(a.app == -b.app)
                log.append("reversal")
    for a in apps if positivity else []:
        h = hyps + [J0 >= 0, J0 < a.n]
        inc = holds(h + [J0 + 1 < a.n], a.xn_full > a.x_full)
        cpos = holds(hyps, a.cx > 0) if inc else False
        if inc and cpos:
            if holds(h, a.y > 0) and holds(hyps, a.n >= 2):
                lem.append(a.app > 0)
            elif holds(h, a.y >= 0):
                lem.append(a.app >= 0)
    return lem, undecided[0]


def _syneq(a, b):
    return z3.eq(a, b) or z3.eq(z3.simplify(a), z3.simplify(b))


def trz_relevant(hyps, goal, trapz):
    ids = {t.get_id() for t in prover.subterms([goal])}
    return any(t.app.get_id() in ids for t in trapz)


def prover_eq(a, b, hyps, ms):
    if z3.eq(a, b):
        return True
    return prover.prove(hyps, a == b, ms)[0] == "proved"


# ----------------------------------------------------------------------------- spline
class Spline:
    """Assumed contract of scipy's InterpolatedUnivariateSpline(x, y, k=3): a function of the
    nodes (x, y) and the evaluation point only, reproducing y at the nodes."""

    def __init__(self, x, y, **kw):
        if kw:
            raise Unsupported("spline options")
        self.x, self.y = lift(x), lift(y)
        c = ctx()
        self.id = len(c.__dict__.setdefault("splines", []))
        c.splines.append(self)
        # splines over the same node arrays are the same function
        jx = self.x.elem(J0)
        jy = self.y.elem(J0)
        n = dimz(self.x.dims[0])
        self.name = "SPL!%d" % c.alike("spline", [to_real(jx.r), to_real(jy.r)], [J0 >= 0, J0 < n],
                                       [n, dimz(self.y.dims[0])])
        self.F = z3.Function(self.name, z3.RealSort(), z3.RealSort())
        c.event("spline", self.name, self.x, self.y)

    def __call__(self, xs, **kw):
        if kw:
            raise Unsupported("spline call options")
        F = self.F
        return unary(lambda e: El(F(e.r), e.nan), xs, F8)


# ---------------------------------------------------------------------------- modules
PI_NUM = SNum(prover.PI, core.FALSE, None, "float")


def f_issubdtype(a, b):
    return rnp.issubdtype(undt(a), b if isinstance(b, type) and issubclass(b, rnp.generic) else undt(b))


def build_numpy():
    m = ShimModule("numpy", rnp)
    d = m.__dict__
    d.update(NP_FUNCS)
    d.update(ndarray=NDArray, nan=float("nan"), pi=PI_NUM, newaxis=None, errstate=ErrState, r_=R_(),
             bool_=rnp.bool_, str_=rnp.str_, bytes_=rnp.bytes_, object_=rnp.object_, generic=rnp.generic,
             number=rnp.number, floating=rnp.floating, integer=rnp.integer, dtype=lambda x: SDtype(undt(x)),
             nanmax=f_nanext("max"), nanmin=f_nanext("min"), inf=float("inf"),
             seterr=lambda **k: {}, finfo=lambda t: rnp.finfo(undt(t)), iinfo=lambda t: rnp.iinfo(undt(t)), issubdtype=f_issubdtype, bool=rnp.bool_, character=rnp.character, result_type=lambda *a: SDtype(result_dt(*a)), promote_types=lambda a, b: SDtype(rnp.promote_types(undt(a), undt(b))))
    for t in ("float64", "float32", "float16", "int16", "int32", "int64", "int8", "uint8", "uint16"):
        d[t] = SType(t)
    ma = ShimModule("numpy.ma", rnp.ma, where=f_ma_where, masked_invalid=f_masked_invalid, MaskedArray=MaskedArray,
                    masked_where=f_masked_where, getmaskarray=f_getmaskarray, nomask=False,
                    array=lambda a, mask=None, **k: _ma_array(a, mask),
                    masked_array=lambda a, mask=None, **k: _ma_array(a, mask),
                    isMaskedArray=lambda a: isinstance(a, SArr) and a.kind == "masked",
                    is_masked=lambda a: lift(a).mask.any() if isinstance(a, SArr) and a.kind == "masked" else False,
                    filled=lambda a, v=None: a.filled(v) if isinstance(a, SArr) and a.kind == "masked" else a)
    d["ma"] = ma
    import numpy.typing as npt
    d["typing"] = npt
    d["testing"] = ShimModule("numpy.testing", rnp.testing)
    return m


def _uns(w):
    raise Unsupported(w)


def _ma_array(a, mask):
    a = lift(a)
    if mask is None:
        return SArr(a.dims, a._elem_frozen(), a.dt, "masked", a.maskfn or (lambda *i: core.FALSE))
    mk = lift(mask)
    mf = mk._elem_frozen()
    return SArr(a.dims, a._elem_frozen(), a.dt, "masked", lambda *i: mf(*bidx(mk, i)).boolean())


def build_dask():
    import dask.array as rda
    m = ShimModule("dask.array", rda)
    for k, f in NP_FUNCS.items():
        if hasattr(rda, k):
            m.__dict__[k] = _dask_result(f)
    m.__dict__.update(Array=DaArray, map_blocks=map_blocks, asanyarray=da_asanyarray, asarray=da_asanyarray,
                      from_array=lambda a, **k: to_dask(lift(a)), nan=float("nan"), pi=PI_NUM)
    return m


def build_scipy():
    import scipy.integrate
    import scipy.interpolate
    integ = ShimModule("scipy.integrate", scipy.integrate, trapezoid=trapezoid)
    interp = ShimModule("scipy.interpolate", scipy.interpolate, InterpolatedUnivariateSpline=Spline)
    return integ, interp
