"""C26: reduction of the Rayleigh correction at high zenith angles."""
import z3

from dv import conc, core
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import SArr, rv, to_real
from props import orc, sym

KINDS = ("numpy", "dask", "xarray")


def reduce_(kind, dt, nd, how):
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.rayleigh")
        dims = tuple(v.dim("d%d" % q) for q in range(nd))
        zen = v.arr("zenith", dims, dt=dt, kind=kind, nan=True)
        ref = v.arr("rayref", dims, dt=dt, kind=kind, nan=True)
        th, mx, st = v.num("thresh_zen"), v.num("maxzen"), v.num("strength")
        v.assume(th.r < mx.r)
        R = mod.Rayleigh
        if how == "object":  # also callable on an object
            R = R.__new__(R)
        res = v.must(v.call(R.reduce_rayleigh_highzenith, zen, ref, th, mx, st), "returns")
        v.ensure_shape("shape", res, dims)
        v.ensure("kind", isinstance(res, SArr) and res.kind == kind)
        v.ensure_dtype("precision", res, dt)
        i = v.index(dims)
        z, r = zen.elem(*i), ref.elem(*i)
        nan = z3.Or(z.nan, r.nan)
        got = res.elem(*i)
        fac = 1 - st.r * (z.r - th.r) / (mx.r - th.r)
        lim = z3.If(fac < 0, rv(0), z3.If(fac > 1, rv(1), fac))
        v.ensure_el("unchanged below the threshold", got, r.r, nan, under=z3.Or(z.nan, z.r <= th.r))
        v.ensure_el("scaled linearly above, factor limited to 0..1", got, r.r * lim, nan, under=z3.And(z3.Not(z.nan), z.r >= th.r))
        v.ensure("never increased, never of the other sign", z3.Implies(z3.Not(nan), z3.If(r.r >= 0, z3.And(got.r >= 0, got.r <= r.r),
                                                                                         z3.And(got.r <= 0, got.r >= r.r))))
        v.ensure("frame: inputs unchanged", zen.version == 0 and ref.version == 0)
    return f


def strongest(v):
    """With strength one: everything at the threshold, nothing from the maximum angle on, monotone between."""
    w = mkworld()
    mod = w.load("pyspectral.rayleigh")
    n = v.dim("n")
    zen, ref = v.arr("zenith", (n,)), v.arr("rayref", (n,), where=lambda r, i: r >= 0)
    th, mx = v.num("thresh_zen"), v.num("maxzen")
    v.assume(th.r < mx.r)
    res = v.must(v.call(mod.Rayleigh.reduce_rayleigh_highzenith, zen, ref, th, mx, 1), "returns")
    (i,), (j,) = v.index((n,), "i"), v.index((n,), "j")
    gi, gj = res.elem(i), res.elem(j)
    zi, zj, ri, rj = zen.elem(i).r, zen.elem(j).r, ref.elem(i).r, ref.elem(j).r
    v.ensure("nothing left from the maximum angle on", z3.Implies(zi >= mx.r, gi.r == 0))
    v.ensure("all at the threshold", z3.Implies(zi == th.r, gi.r == ri))
    v.ensure("less correction at larger angles", z3.Implies(z3.And(zi <= zj, ri == rj), gi.r >= gj.r))


CONTRACTS = [Contract("reduce_rayleigh_highzenith[%s %s %dd%s]" % (k, d, n, h), reduce_(k, d, n, h))
             for k in KINDS for d in ("f8", "f4") for n, h in ((1, ""), (2, "object" if k == "numpy" and d == "f8" else ""))] + \
    [Contract("reduce_rayleigh_highzenith[full strength]", strongest)]
ASSUMPTIONS = ["threshold angle below the maximum angle"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 2500, "thorough": 4000, "search": 4000}[tier]):
        sh = rng.choice([[1], [6], [2, 3]])
        th = rng.choice([0.0, 60.0, 70.0, rng.uniform(0, 80)])
        mx = th + rng.choice([1.0, 20.0, rng.uniform(1, 40)])
        z = lambda: rng.choice([th, mx, 0.0, rng.uniform(0, 110), rng.uniform(th, mx), rng.uniform(th, mx), -10.0, None])
        yield dict(shape=sh, z=[z() for _ in range(6)], r=[rng.choice([0.0, rng.uniform(0, 100), -3.0, None]) for _ in range(6)], th=th, mx=mx,
                   st=rng.choice([0, 1, 1.0, 0.5, 2.5, rng.random(), -0.5]), kind=rng.choice(KINDS), dt=rng.choice(["f8", "f8", "f4"]))


def run_case(case):
    import numpy as np
    from pyspectral.rayleigh import Rayleigh
    n = int(np.prod(case["shape"]))
    arr = lambda l: np.array([np.nan if x is None else x for x in l[:n]], case["dt"]).reshape(case["shape"])
    z0, r0 = arr(case["z"]), arr(case["r"])
    z, r = orc.mk(z0.copy(), case["kind"]), orc.mk(r0.copy(), case["kind"])
    out = Rayleigh.reduce_rayleigh_highzenith(z, r, case["th"], case["mx"], case["st"])
    if type(out) is not type(r) or out.dtype != r0.dtype or out.shape != r0.shape:
        return "%s %s %s" % (type(out), out.dtype, out.shape)
    want = np.empty(r0.shape)
    for i in np.ndindex(r0.shape):
        zz, rr = float(z0[i]), float(r0[i])
        f = 1.0 if zz <= case["th"] else min(1.0, max(0.0, 1 - case["st"] * (zz - case["th"]) / (case["mx"] - case["th"])))
        want[i] = np.nan if zz != zz else rr * f
    rt, at = (1e-9, 1e-9) if case["dt"] == "f8" else (1e-4, 1e-2)
    return conc.first(conc.unchanged("zenith", z0, orc.val(z)), conc.unchanged("rayref", r0, orc.val(r)),
                      conc.close(orc.val(out), want, rtol=rt, atol=at))
