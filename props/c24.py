"""C24: Rayleigh reflectance by angles."""
import os

import z3

from dv import conc, core
from dv.session import Contract, StopContract
from dv.values import SArr, dimz, rv, to_real
from props import orc, ray, sym

ML = z3.Function("MULTILINEAR", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


def grid_ok(v, t, it, k, f):
    """The interpolator was given this table: axes (sun, azimuth, satellite), end points, orders, values."""
    axes = [(t.sunz, t.ns), (t.azid, t.na), (t.satz, t.nt)]
    for q, (a, n) in enumerate(axes):
        v.ensure_el("grid starts at the table's first value, axis %d" % q, it.smin[q], a.elem(z3.IntVal(0)).r)
        v.ensure_el("grid ends at the table's last value, axis %d" % q, it.smax[q], a.elem(dimz(n) - 1).r)
        o = it.orders[q]
        v.ensure("grid size, axis %d" % q, (o.r if hasattr(o, "r") else z3.IntVal(o) if isinstance(o, int) else o) == dimz(n))
    b = getattr(it.values, "base", None)
    if not (b is not None and b[0] == "flat" and len(b[2]) == 3):
        raise core.Unsupported("interpolator values of another layout")
    v.ensure("values laid out over the grid", z3.And(*[dimz(d) == dimz(n) for d, (_, n) in zip(b[2], axes)]))
    i = v.index((t.ns, t.na, t.nt), "g")
    lo, hi = t.refl.elem(k - 1, *i).r, t.refl.elem(k, *i).r
    v.ensure_el("values are the table at the wavelength", b[3](*i), f * lo + (1 - f) * hi)


def faded(r, red):
    x = to_real(red.r)
    return z3.If(x < 20, r, (1 - (x - 20) / 80) * r)


def reflectance(kind, dt, nd, red):
    def f(v):
        w, mod, obj, t, calls = ray.setup(v)
        dims = tuple(v.dim("d%d" % q) for q in range(nd))
        A = lambda n, **k: v.arr(n, dims, dt=dt, kind=kind, **k)
        sun, sat = A("sun_zenith", nan=True), A("sat_zenith", nan=True)
        azi = A("azidiff")
        rb = A("redband", nan=True) if red else None
        wl = v.num("wavelength", gt=0)
        v.assume(z3.And(t.wvl.elem(z3.IntVal(0)).r < wl.r * 1000, wl.r * 1000 < t.wvl.elem(dimz(t.nw) - 1).r))
        k, lo, hi = ray.bracket(v, t, wl.r * 1000)
        n0 = len(v.c.events)
        a = [sun, sat, azi, wl] + ([rb] if red else [])
        res = v.must(v.call(obj.get_reflectance, *a), "returns")
        v.ensure_shape("shape", res, dims)
        v.ensure("kind", isinstance(res, SArr) and res.kind == kind)
        v.ensure_dtype("precision", res, dt)
        i = v.index(dims)
        got = res.elem(*i)
        its = [e for e in v.c.events[n0:] if e[0] == "ml-call"]
        v.ensure("interpolated", bool(its))
        seen = set()
        for e in its:
            if id(e[1]) not in seen and len(seen) < 1:
                grid_ok(v, t, e[1], k, (hi - wl.r * 1000) / (hi - lo))
            seen.add(id(e[1]))
        r = 100 * ML(ray.secant(v, sun.elem(*i), t.sunz.elem(dimz(t.ns) - 1).r), 180 - azi.elem(*i).r,
                     ray.secant(v, sat.elem(*i), t.satz.elem(dimz(t.nt) - 1).r))
        nan = None
        if red:
            e = rb.elem(*i)
            r, nan = faded(r, e), e.nan
        r = z3.If(r < 0, rv(0), z3.If(r > 100, rv(100), r))
        v.ensure_el("interpolated, faded and limited", got, r, nan)
        v.ensure("frame: inputs unchanged", all(x.version == 0 for x in (sun, sat, azi) + ((rb,) if red else ())))
        t.unchanged(v)
    return f


CONTRACTS = [Contract("get_reflectance[%s %s %dd%s]" % (k, d, n, " red" if r else ""), reflectance(k, d, n, r))
             for k in ("numpy", "dask") for d in ("f8", "f4") for n, r in ((1, True), (2, True), (2, False))]
ASSUMPTIONS = ["geotiepoints.MultilinearInterpolator is a function of its grid and the point, column by column (its interpolation formula is checked only by the run-time cases)",
               "dask.map_blocks applies the function block by block, for every chunking; get_config returns the configured directory (C23)",
               "secants in the table are >= 1 and increasing; azimuth differences are not missing"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 600, "thorough": 2500, "search": 2500}[tier]):
        t = ray.random_table(rng, rng.random() < 0.3)
        sh = rng.choice([[1], [7], [2, 3], [5, 4], [1, 6]])
        n = 1
        for d in sh:
            n *= d
        t["amax"] = 180.0 if rng.random() < 0.8 else t["amax"]
        pickz = lambda: rng.choice([0.0, rng.uniform(0, 89), rng.uniform(0, 60), rng.uniform(-20, 0), rng.uniform(85, 110), None])
        yield dict(t=t, shape=sh, sun=[pickz() for _ in range(n)], sat=[pickz() for _ in range(n)],
                   azi=[rng.choice([180 - t["amax"], 180.0, rng.uniform(180 - t["amax"], 180),
                                    rng.uniform(180 - t["amax"], 180), rng.uniform(-60, 240)]) for _ in range(n)],
                   red=None if rng.random() < 0.4 else [rng.choice([0.0, 20.0, 19.9, 100.0, 120.0, rng.uniform(0, 130), None, -5.0]) for _ in range(n)],
                   kind=rng.choice(["numpy", "dask", "dask1", "dask2"]), dt=rng.choice(["f8", "f8", "f4"]), u=rng.uniform(0.001, 0.999),
                   node=rng.random() < 0.1, aer=rng.choice(["marine_clean_aerosol", "rayleigh_only", "desert_aerosol"]),
                   atm=rng.choice(["us-standard", "subarctic winter", "tropical"]))


def run_case(case):
    import dask.array as da
    import numpy as np
    from pyspectral.rayleigh import Rayleigh
    cfg = orc.configure()
    t = case["t"]
    other = dict(t, refl=(np.array(t["refl"]) * 0 + 0.77).tolist())
    for a in ("marine_clean_aerosol", "rayleigh_only", "desert_aerosol"):
        for m in ("us-standard", "subarctic_winter", "tropical"):
            mine = a == case["aer"] and m == case["atm"].replace(" ", "_")
            if mine or m == "us-standard":
                ray.write_table(os.path.join(cfg["rayleigh_dir"], a, "rayleigh_lut_%s.h5" % m), t if mine else other)
    W = t["wvl"]
    wvl = W[0] + case["u"] * (W[-1] - W[0])
    if case["node"] and len(W) > 2:
        wvl = W[1]
    um = wvl / 1000.0
    nan = lambda l: np.array([np.nan if x is None else x for x in l], case["dt"]).reshape(case["shape"])
    arrs = [nan(case["sun"]), nan(case["sat"]), nan(case["azi"])] + ([nan(case["red"])] if case["red"] else [])
    before = [a.copy() for a in arrs]
    want = ray.oracle(t, um * 1000, *[a.astype("f8") for a in arrs])
    ch = {"dask": None, "dask1": 1, "dask2": tuple(max(1, d // 2) for d in case["shape"])}
    if case["kind"] == "numpy":
        args = arrs
    else:
        args = [da.from_array(a, chunks=ch[case["kind"]] or a.shape) for a in arrs]
    r = Rayleigh("NOAA-20", "viirs", atmosphere=case["atm"], aerosol_type=case["aer"])
    out = r.get_reflectance(*args[:3], um, *args[3:])
    if (case["kind"] == "numpy") != isinstance(out, np.ndarray):
        return "result is %s for %s input" % (type(out).__name__, case["kind"])
    if out.dtype != np.dtype(case["dt"]):
        return "result is %s for %s input" % (out.dtype, case["dt"])
    if out.shape != tuple(case["shape"]):
        return "shape %s" % (out.shape,)
    got = np.asarray(out)
    if got.dtype != np.dtype(case["dt"]) or got.shape != tuple(case["shape"]):
        return "computed %s %s" % (got.dtype, got.shape)
    return conc.first(*[conc.unchanged("input %d" % q, b, a) for q, (b, a) in enumerate(zip(before, arrs))]) or \
        conc.close(got, want, rtol=1e-9 if case["dt"] == "f8" else 2e-3, atol=1e-7 if case["dt"] == "f8" else 2e-2)
