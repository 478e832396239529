"""C27: infrared limb correction."""
import z3

from dv import conc, core, shims
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import El, SArr, SNum, rv, to_real
from props import orc


def num(r):
    return SNum(r, core.FALSE, None, "float")


def nadir(t):
    return (num(rv("10.85")) ** num((t - 210) / 110)).el().r - 1


def limb(t, z):
    q = (t - 170) / 125
    return q * q * q * q * ((num(rv("7.2")) ** num(z / 70)).el().r - 1)


def correct(dk, zk, dt, nd, masks, inplace=False):
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.atm_correction_ir")
        dims = tuple(v.dim("d%d" % q) for q in range(nd))
        data = v.arr("data", dims, dt=dt, kind=dk, nan=dk != "masked", mask=dk == "masked" and "d" in masks)
        zen = v.arr("view_zen", dims, dt=dt, kind=zk, nan=True, mask=zk == "masked" and "z" in masks)
        d0, m0, z0, mz = data._elem_frozen(), data.maskfn, zen._elem_frozen(), zen.maskfn
        if inplace:
            res = v.must(v.call(mod.viewzen_corr, data, zen), "returns")
        else:
            obj = v.must(v.call(mod.AtmosphericalCorrection, "Suomi-NPP", "viirs"), "constructed")
            res = v.must(v.call(obj.get_correction, zen, None, data), "returns")
            v.ensure("frame: data not modified", data.version == 0)
        v.ensure("frame: angles not modified", zen.version == 0)
        v.ensure_shape("shape", res, dims)
        chunked = "dask" in (dk, zk)
        v.ensure("kind", isinstance(res, SArr) and res.kind == ("dask" if chunked else dk))
        v.ensure_dtype("precision", res, dt)
        i = v.index(dims)
        t, z = d0(*i), z0(*i)
        md = m0(*i) if m0 is not None else core.FALSE
        zm = mz(*i) if mz is not None else core.FALSE
        if dk == "masked":
            got_m = res.maskfn(*i) if res.maskfn is not None else core.FALSE
            v.ensure("masked pixels stay masked, others stay valid", got_m == md)
        ok = z3.And(z3.Not(zm), z3.Not(z.nan))
        zr = to_real(z.r)
        r = z3.If(z3.And(ok, zr == 0), t.r + nadir(t.r), z3.If(z3.And(ok, zr > 0, zr < 90), t.r + limb(t.r, zr), t.r))
        v.ensure_el("corrected value", res.elem(*i), r, t.nan, under=z3.Not(md))
    return f


def atmosphere(v):
    w = mkworld()
    mod = w.load("pyspectral.atm_correction_ir")
    a = v.str("atmosphere")
    v.must_raise(v.call(mod.AtmosphericalCorrection, "Suomi-NPP", "viirs", atmosphere="tropical"), AttributeError, "no atmosphere choice")


COMBOS = [("masked", "masked", "dz"), ("masked", "masked", ""), ("masked", "numpy", "d"), ("numpy", "numpy", ""), ("dask", "dask", ""), ("dask", "numpy", ""), ("numpy", "dask", "")]
CONTRACTS = [Contract("get_correction[%s data %s angles %s%s]" % (d, z, dt, " masks " + m if m else ""), correct(d, z, dt, 2, m))
             for d, z, m in COMBOS for dt in (("f8", "f4") if d == z else ("f8",))] + \
    [Contract("get_correction[chunked 1d]", correct("dask", "dask", "f8", 1, "")),
     Contract("viewzen_corr[masked]", correct("masked", "masked", "f8", 2, "dz", True)),
     Contract("viewzen_corr[plain]", correct("numpy", "numpy", "f8", 2, "", True)),
     Contract("AtmosphericalCorrection[atmosphere]", atmosphere)]
ASSUMPTIONS = ["real powers are an uninterpreted function of base and exponent", "unchunked data have two dimensions (documented)",
               "masked data mark missing pixels by the mask, plain and chunked data by NaN (masks inside chunks are not covered)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 1200, "thorough": 4000, "search": 4000}[tier]):
        n = 6
        d, z, m = rng.choice(COMBOS)
        yield dict(shape=rng.choice([[2, 3], [1, 6], [6, 1]]), d=d, z=z, m=m, dt=rng.choice(["f8", "f8", "f4"]),
                   t=[rng.choice([210.0, 170.0, rng.uniform(180, 340), rng.uniform(220, 310), None if rng.random() < 0.3 else 300.0]) for _ in range(n)],
                   a=[rng.choice([0.0, -0.0, 90.0, 89.99, rng.uniform(0, 90), rng.uniform(0, 75), rng.uniform(90, 180), -5.0, None, 1e-3, 1e-8, -1e-8]) for _ in range(n)],
                   md=[rng.random() < 0.3 for _ in range(n)], mz=[rng.random() < 0.3 for _ in range(n)], inplace=rng.random() < 0.2)


def run_case(case):
    import dask.array as da
    import numpy as np
    from pyspectral.atm_correction_ir import AtmosphericalCorrection, viewzen_corr
    arr = lambda l: np.array([np.nan if x is None else x for x in l], case["dt"]).reshape(case["shape"])

    def mk(a, kind, mask):
        if kind == "masked":
            return np.ma.array(a.copy(), mask=np.array(mask).reshape(a.shape) if mask is not None else False)
        return da.from_array(a.copy(), chunks=(1, 2)) if kind == "dask" else a.copy()
    if case["d"] == "masked":
        case = dict(case, t=[280.0 if x is None else x for x in case["t"]])
    t, a = arr(case["t"]), arr(case["a"])
    md = case["md"] if case["d"] == "masked" and "d" in case["m"] else None
    mz = case["mz"] if case["z"] == "masked" and "z" in case["m"] else None
    data, zen = mk(t, case["d"], md), mk(a, case["z"], mz)
    if case["inplace"]:
        out = viewzen_corr(data, zen)
    else:
        out = AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(zen, "M15", data)
    chunked = "dask" in (case["d"], case["z"])
    if isinstance(out, da.Array) != chunked or out.dtype != t.dtype or out.shape != t.shape:
        return "%s %s %s" % (type(out), out.dtype, out.shape)
    if case["d"] == "masked" and not isinstance(out, np.ma.MaskedArray):
        return "mask lost"
    got = np.asarray(out.compute() if chunked else np.ma.getdata(out))
    gm = np.ma.getmaskarray(out) if not chunked else np.zeros(t.shape, bool)
    want_m = np.array(md).reshape(t.shape) if md is not None else np.zeros(t.shape, bool)
    if not (gm == want_m).all():
        return "mask %r, expected %r" % (gm.tolist(), want_m.tolist())
    want = t.astype("f8")
    for i in np.ndindex(t.shape):
        z, x = float(a[i]), float(t[i])
        if mz is not None and np.array(mz).reshape(t.shape)[i]:
            continue
        if z == 0:
            want[i] = x + 10.85 ** ((x - 210) / 110) - 1
        elif 0 < z < 90:
            want[i] = x + ((x - 170) / 125) ** 4 * (7.2 ** (z / 70) - 1)
    rt = 1e-9 if case["dt"] == "f8" else 2e-5
    e = conc.close(got[~want_m], want[~want_m], rtol=rt)
    if e:
        return e
    zb = np.asarray(zen.compute()) if case["z"] == "dask" else np.ma.getdata(zen)
    e = conc.unchanged("angles", a, zb)
    if not e and not case["inplace"]:
        e = conc.unchanged("data", t, np.asarray(data.compute()) if case["d"] == "dask" else np.ma.getdata(data))
    return e
