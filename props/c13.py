"""C13: central wavelength / wavenumber."""
import z3

from dv import conc
from dv.ioshims import mkworld
from dv.session import Contract, trz_linear
from dv.values import dimz, rv
from props import orc, sym


def setup(v, weight):
    w = mkworld()
    mod = w.load("pyspectral.utils")
    n = v.dim("n", lo=2)
    x = v.increasing(v.arr("wav", (n,), where=lambda r, i: r > 0))
    r = v.arr("resp", (n,), where=lambda e, i: e >= 0)
    if weight == "array":
        wt = v.arr("weight", (n,), where=lambda e, i: e >= 0)
        we = lambda j: wt.elem(j).r
    elif weight == "scalar":
        wt = v.num("weight", gt=0)
        we = lambda j: wt.r
    elif weight == "rayleigh":  # wavelength ** -4, the documented use
        wt = 1 / x ** 4
        we = lambda j: 1 / (x.elem(j).r * x.elem(j).r * x.elem(j).r * x.elem(j).r)
    else:
        wt, we = None, lambda j: rv(1)
    return mod, n, x, r, wt, we


def call(v, mod, x, r, wt):
    if wt is None:
        return v.must(v.call(mod.get_central_wave, x, r), "returns")
    return v.must(v.call(mod.get_central_wave, x, r, wt), "returns")


def value(weight):
    def f(v):
        mod, n, x, r, wt, we = setup(v, weight)
        out = call(v, mod, x, r, wt)
        A = sym.earr((n,), lambda j: r.elem(j).r * we(j) * x.elem(j).r)
        B = sym.earr((n,), lambda j: r.elem(j).r * we(j))
        den = sym.trz(B, x).r
        v.assume(den > 0)
        v.ensure_el("weighted mean of the positions", out, sym.trz(A, x).r / den)
        v.ensure("frame: inputs unchanged", x.version == 0 and r.version == 0 and getattr(wt, "version", 0) == 0)
    return f


def bounds(weight):
    def f(v):
        mod, n, x, r, wt, we = setup(v, weight)
        out = call(v, mod, x, r, wt)
        A = sym.earr((n,), lambda j: r.elem(j).r * we(j) * x.elem(j).r)
        B = sym.earr((n,), lambda j: r.elem(j).r * we(j))
        x0, x1 = x.elem(z3.IntVal(0)).r, x.elem(dimz(n) - 1).r
        L = sym.earr((n,), lambda j: r.elem(j).r * we(j) * (x.elem(j).r - x0))
        U = sym.earr((n,), lambda j: r.elem(j).r * we(j) * (x1 - x.elem(j).r))
        tl, (ta, tb) = trz_linear(v, "linearity, lower", L, [(rv(1), A), (-x0, B)], x)
        tu, (tb2, ta2) = trz_linear(v, "linearity, upper", U, [(x1, B), (rv(-1), A)], x)
        v.assume(tb > 0)
        v.ensure("positivity, lower", tl >= 0)
        v.ensure("positivity, upper", tu >= 0)
        v.c.fact(tl >= 0)
        v.c.fact(tu >= 0)
        v.ensure_el("weighted mean", out, ta / tb)
        v.ensure("not below the first position", z3.Implies(out.el().r == ta / tb, out.el().r >= x0))
        v.ensure("not above the last position", z3.Implies(z3.And(out.el().r == ta / tb, ta == ta2, tb == tb2),
                                                           out.el().r <= x1))
    return f


def scaling(weight):
    def f(v):
        mod, n, x, r, wt, we = setup(v, weight)
        k = v.num("k", gt=0)
        out = call(v, mod, x, r, wt)
        out2 = call(v, mod, x, r * k, wt)
        B = sym.earr((n,), lambda j: r.elem(j).r * we(j))
        v.assume(sym.trz(B, x).r > 0)
        v.ensure_el("unchanged by scaling the response", out2, out.el().r)
    return f


WEIGHTS = ("none", "scalar", "array", "rayleigh")
CONTRACTS = [Contract("weighted mean[%s weight]" % k, value(k)) for k in WEIGHTS] + \
    [Contract("within the sampled interval[%s weight]" % k, bounds(k)) for k in ("none", "array")] + \
    [Contract("response scaling[%s weight]" % k, scaling(k)) for k in ("none", "array")]
ASSUMPTIONS = ["linearity, positivity and congruence of the trapezoid rule (proved in lean/Trapz.lean)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 6000, "thorough": 6000, "search": 6000}[tier]):
        n = rng.choice([2, 3, 5, 20, 100])
        yield dict(x=orc.grid(rng, 0.3, 14, n) if rng.random() < 0.7 else orc.grid(rng, 700, 3000, n),
                   r=orc.response(rng, n) if rng.random() < 0.7 else [rng.choice([0.0, 0.0, rng.random()]) for _ in range(n)],
                   w=rng.choice(["none", "scalar", "array", "rayleigh"]), wv=[rng.random() for _ in range(n)],
                   scale=rng.choice([1, 0.01, 100.0]), dt=rng.choice(["f4", "f8", "f8"]))


def run_case(case):
    import numpy as np
    from pyspectral.utils import get_central_wave
    x, r = np.array(case["x"], case["dt"]), np.array(case["r"], case["dt"])
    w = {"none": None, "scalar": 2.5, "array": np.array(case["wv"]), "rayleigh": 1. / x ** 4}[case["w"]]
    xb, rb = x.copy(), r.copy()
    a = () if w is None else (w,)
    wb = np.array(w) if w is not None else None
    x8, y = x.astype("f8"), r.astype("f8") * (1.0 if w is None else np.asarray(w, "f8"))
    den = orc.trapz(y, x8)
    if not den > 1e-12 * float(np.max(y) or 1) * (x8[-1] - x8[0]):
        raise conc.Skip()
    out = get_central_wave(x, r, *a)
    out2 = get_central_wave(x, r * case["scale"], *a)
    rt = 1e-9 if case["dt"] == "f8" else 2e-5
    e = conc.first(conc.unchanged("wav", xb, x), conc.unchanged("resp", rb, r),
                   conc.unchanged("weight", wb, w) if w is not None else None,
                   conc.close(out, orc.trapz(y * x8, x8) / den, rtol=rt), conc.close(out2, out, rtol=rt))
    if e:
        return e
    if not x8[0] * (1 - rt) <= out <= x8[-1] * (1 + rt):
        return "central wave %r outside %r..%r" % (out, x8[0], x8[-1])
