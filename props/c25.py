"""C25: wavelength interpolation of the Rayleigh tables, zero outside, errors for missing files."""
import os

import z3

from dv import conc, core
from dv.core import modelled
from dv.session import Contract
from dv.values import SArr, dimz, rv, to_real
from props import c24, orc, ray, sym
from props.c20 import pick


def angles(v, kind, dt, nd=2, red=False, rdt=None):
    dims = tuple(v.dim("d%d" % q) for q in range(nd))
    A = lambda n, dt=dt, **k: v.arr(n, dims, dt=dt, kind=kind, **k)
    return dims, [A("sun_zenith", nan=True), A("sat_zenith", nan=True), A("azidiff")], A("redband", nan=True, dt=rdt or dt) if red else None


def effective(v):
    """An arbitrary band and its response-weighted wavelength with weight wavelength^-4 (microns)."""
    rec, x, r, cw = sym.band(v, "M1")
    rec2, _, _, _ = sym.band(v, "M1b")
    rec3, _, _, _ = sym.band(v, "M2")
    rsr = sym.mkd({"M1": sym.mkd({"det-1": rec, "det-2": rec2}), "M2": sym.mkd({"det-1": rec3})})
    n = x.dims[0]
    w4 = lambda j: 1 / (x.elem(j).r * x.elem(j).r * x.elem(j).r * x.elem(j).r)
    den = sym.trz(sym.earr((n,), lambda j: r.elem(j).r * w4(j)), x).r
    num = sym.trz(sym.earr((n,), lambda j: r.elem(j).r * w4(j) * x.elem(j).r), x).r
    v.assume(den > 0)
    v.assume(num > 0)
    return rsr, num / den


def number(v):
    """The wavelength as a Python or numpy number."""
    import numpy as np
    t = pick(v, "number type", ["float", "f4", "f8", "int", "i8"])
    return v.num("wavelength", gt=0, dt=np.dtype(t) if t in ("f4", "f8", "i8") else None, integer=t in ("int", "i8"))


def ends(t):
    return t.wvl.elem(z3.IntVal(0)).r, t.wvl.elem(dimz(t.nw) - 1).r


def inside(band):
    """The grid given to the interpolator is the table interpolated linearly at the effective wavelength."""
    def f(v):
        rsr, eff = effective(v) if band else (None, None)
        w, mod, obj, t, calls = ray.setup(v, rsr=rsr)
        dims, a, _ = angles(v, "numpy", "f8", 1)
        wl = "M1" if band else number(v)
        x = (eff if band else to_real(wl.r)) * 1000
        lo, hi = ends(t)
        v.assume(z3.And(lo < x, x < hi))
        k, wlo, whi = ray.bracket(v, t, x)
        n0 = len(v.c.events)
        res = v.must(v.call(obj.get_reflectance, *a, wl), "returns")
        res.elem(*v.index(dims))
        its = [e for e in v.c.events[n0:] if e[0] == "ml-call"]
        v.ensure("interpolated", bool(its))
        if its:
            c24.grid_ok(v, t, its[0][1], k, (whi - x) / (whi - wlo))
        if band:
            v.ensure("responses of this platform and sensor", calls == [("NOAA-20", "viirs", None)])
        t.unchanged(v)
    return f


def outside(kind, dt, red, rdt=None):
    """At or outside the table's range: zero everywhere."""
    def f(v):
        band = pick(v, "band given as", ["wavelength", "name"]) == "name"
        rsr, eff = effective(v) if band else (None, None)
        w, mod, obj, t, calls = ray.setup(v, rsr=rsr)
        dims, a, rb = angles(v, kind, dt, 2, red, rdt)
        wl = "M1" if band else number(v)
        x = (eff if band else to_real(wl.r)) * 1000
        lo, hi = ends(t)
        v.assume(z3.Or(x <= lo, x >= hi))
        res = v.must(v.call(obj.get_reflectance, *a, wl, *([rb] if red else [])), "returns")
        v.ensure_shape("shape", res, dims)
        v.ensure("kind", isinstance(res, SArr) and res.kind == kind)
        v.ensure_dtype("precision", res, rdt or dt)
        i = v.index(dims)
        v.ensure_el("zero", res.elem(*i), rv(0), rb.elem(*i).nan if red else None)
        v.ensure("frame: inputs unchanged", all(y.version == 0 for y in a + ([rb] if red else [])))
    return f


def missing_table(v):
    rsr, eff = effective(v)
    w, mod, obj, t, calls = ray.setup(v, rsr=rsr, exists=False)
    dims, a, rb = angles(v, pick(v, "kind", ["numpy", "dask"]), "f8", 1, True)
    wl = "M1" if pick(v, "band given as", ["wavelength", "name"]) == "name" else v.num("wavelength", gt=0)
    v.must_raise(v.call(obj.get_reflectance, *a, wl, *([rb] if pick(v, "red", ["yes", "no"]) == "yes" else [])),
                 FileNotFoundError, "a missing table is an error")


def missing_responses(v):
    rsr, eff = effective(v)
    w, mod, obj, t, calls = ray.setup(v, rsr=rsr)
    dims, a, rb = angles(v, pick(v, "kind", ["numpy", "dask"]), "f8", 1)
    if pick(v, "missing", ["file", "band"]) == "file":
        def gone(*a, **k):
            raise modelled(pick(v, "how", [OSError("no file"), FileNotFoundError("no file")]))
        mod.RelativeSpectralResponse = gone
        v.must_raise(v.call(obj.get_reflectance, *a, "M1"), KeyError, "missing responses are an error")
    else:
        v.must_raise(v.call(obj.get_reflectance, *a, "M9"), KeyError, "an unknown band is an error")


CONTRACTS = [Contract("table at the wavelength[wavelength]", inside(False)), Contract("table at the wavelength[band name]", inside(True))] + \
    [Contract("outside the range[%s %s%s]" % (k, d, " red" if r else ""), outside(k, d, r))
     for k in ("numpy", "dask") for d in ("f8", "f4") for r in (True, False)] + \
    [Contract("outside the range[%s, %s angles and %s red band]" % x, outside(x[0], x[1], True, x[2]))
     for x in (("numpy", "f8", "f4"), ("dask", "f8", "f4"), ("numpy", "f4", "f8"))] + \
    [Contract("missing table", missing_table), Contract("missing responses", missing_responses)]
ASSUMPTIONS = ["RelativeSpectralResponse enters through its contract (C18)", "table wavelengths are increasing",
               "the interpolation in the angles is C24"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 800, "thorough": 2500, "search": 2500}[tier]):
        t = ray.random_table(rng)
        t["amax"] = 180.0
        how = rng.choice(["number", "number", "band", "band", "below", "above", "at-low", "at-high", "no-table", "no-rsr", "no-band"])
        lo, hi = t["wvl"][0] / 1000, t["wvl"][-1] / 1000
        n = rng.choice([2, 3, 10])
        if how == "band" and rng.random() < 0.3:
            g = orc.grid(rng, 1.2, 1.9, n)
        else:
            a = rng.uniform(lo, hi)
            g = orc.grid(rng, max(lo - 0.05, a - rng.choice([0.02, 0.3])), a + rng.choice([0.02, 0.3]), n)
        num = {"below": rng.uniform(0.1, lo), "above": rng.uniform(hi, 15), "at-low": lo, "at-high": hi}.get(how, rng.uniform(lo, hi))
        yield dict(t=t, how=how, x=g, r=[rng.choice([0.1, 1.0, rng.random()]) for _ in range(n)], num=num, ints=rng.random() < 0.1,
                   dets=rng.choice([1, 1, 3]), kind=rng.choice(["numpy", "dask"]), dt=rng.choice(["f8", "f8", "f4"]), rdt=rng.choice([None, None, "f4", "f8"]), nt=rng.choice([None, None, "f4", "f8", "i8"]),
                   sun=[rng.uniform(0, 70) for _ in range(4)], sat=[rng.uniform(0, 60) for _ in range(4)], azi=[rng.uniform(0, 180) for _ in range(4)],
                   red=None if rng.random() < 0.5 else [rng.choice([5.0, 50.0, 110.0, None]) for _ in range(4)])


def run_case(case):
    import dask.array as da
    import numpy as np
    from pyspectral.rayleigh import Rayleigh
    cfg = orc.configure()
    t, how = case["t"], case["how"]
    path = os.path.join(cfg["rayleigh_dir"], "marine_clean_aerosol", "rayleigh_lut_us-standard.h5")
    if how == "no-table":
        if os.path.exists(path):
            os.remove(path)
    else:
        ray.write_table(path, t)
    dt = case["dt"]
    odt = case.get("rdt") or dt if case["red"] else dt  # the precision of the red band, where given
    nan = lambda l, t=dt: np.array([np.nan if x is None else x for x in l], t).reshape(2, 2)
    arrs = [nan(case[k]) for k in ("sun", "sat", "azi")] + ([nan(case["red"], odt)] if case["red"] else [])
    args = [da.from_array(a, chunks=(1, 2)) for a in arrs] if case["kind"] == "dask" else arrs
    x, r = np.array(case["x"], "f4").astype("f8"), np.array(case["r"], "f4").astype("f8")
    bands = {"M1": [(x, r, 0.5)] + [(x * 1.07, r[::-1], 0.7)] * (case["dets"] - 1), "M2": [(x + 0.1, r, 0.6)]}
    with orc.rsr_files({("NOAA-20", "viirs"): bands}):
        if how == "no-rsr":
            for f in os.listdir(cfg["rsr_dir"]):
                os.remove(os.path.join(cfg["rsr_dir"], f))
        obj = Rayleigh("NOAA-20", "viirs")
        band = {"band": "M1", "no-rsr": "M1", "no-band": "M7"}.get(how, case["num"])
        if how == "above" and case["ints"]:
            band = 3
        nt = case.get("nt")
        if nt and how in ("number", "above", "below") and (nt != "i8" or how == "above"):
            band = np.dtype(nt).type(band)  # a numpy number
        exc = {"no-table": FileNotFoundError, "no-rsr": KeyError, "no-band": KeyError}.get(how)
        try:
            out = obj.get_reflectance(*args[:3], band, *args[3:])
        except Exception as e:
            if exc and isinstance(e, exc):
                return None
            if exc is None:
                raise
            return "%s: raised %s, expected %s" % (how, type(e).__name__, exc.__name__)
    if exc:
        return "%s: no error" % how
    if how == "band":
        y = r / x ** 4
        eff = orc.trapz(y * x, x) / orc.trapz(y, x)
    else:
        eff = float(band)
    lo, hi = t["wvl"][0], t["wvl"][-1]
    exact = dt == odt == "f8" and not isinstance(band, np.float32)
    if how not in ("at-low", "at-high") and min(abs(eff * 1000 - lo), abs(eff * 1000 - hi)) < 1e-3:
        raise conc.Skip()
    if how.startswith("at-") and band * 1000.0 not in (lo, hi):
        raise conc.Skip()  # the table's end is not representable in microns
    if lo < eff * 1000 < hi:
        want = ray.oracle(t, eff * 1000, *[a.astype("f8") for a in arrs])
    else:
        want = np.zeros((2, 2))
        if case["red"]:
            want[np.isnan(arrs[3])] = np.nan
    if (case["kind"] == "numpy") != isinstance(out, np.ndarray) or out.shape != (2, 2) or out.dtype != np.dtype(odt):
        return "%s %s %s for %s %s" % (type(out).__name__, out.shape, out.dtype, case["kind"], odt)
    return conc.close(np.asarray(out), want, rtol=1e-9 if exact else 1e-3, atol=1e-5 if exact else 1e-2)
