"""C03: radiance -> brightness temperature gives the same values for every array container, lazily."""
import z3

from dv import conc, core
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import SNum
from props import orc
from props.c02 import inv_term


LABELS = {"dims": ("y", "x"), "coords": "coordinates of the radiances", "name": "radiance"}
ATTRS = {"units": "u", "any": "other attributes"}


def make(fname, kind, dt, wt, kw=False, mod="blackbody"):
    wavelength = fname != "blackbody_wn_rad2temp"

    def f(v):
        w = mkworld()
        fn = getattr(w.load("pyspectral." + mod), fname)
        x = v.num("wave", gt=0, dt=wt)
        base = "xarray" if kind.startswith("xarray") else kind
        L = v.arr("L", ("ny", "nx"), dt=dt, kind=base, nan=True, where=lambda r, i: r > 0)
        if kind == "xarray-dask":
            L.chunksz = True
        if base == "xarray":
            L.labels_, L.attrs_ = dict(LABELS), dict(ATTRS)
        n0 = len(core.ctx().events)
        if kw:
            out = v.call(fn, **({"wavelength" if wavelength else "wavenumber": x, "radiance": L}))
        elif mod != "blackbody":
            out = v.call(fn, L, x)
        else:
            out = v.call(fn, x, L)
        out = v.must(out, "returns")
        v.ensure_shape("shape preserved", out, L.dims)
        v.ensure("container preserved", getattr(out, "kind", None) == base and
                 (kind != "xarray-dask" or bool(out.chunksz)))
        if base == "xarray":
            v.ensure("dimensions, coordinates and name preserved", out.labels_ == LABELS)
            v.ensure("attributes preserved", out.attrs_ == ATTRS)
            v.ensure("frame: labels and attributes unchanged", L.labels_ == LABELS and L.attrs_ == ATTRS)
        v.ensure("nothing computed before it is asked for",
                 not any(e[0] == "compute" for e in core.ctx().events[n0:]))
        if wavelength:
            v.ensure_dtype("floating type of the radiances preserved", out, dt)
        i = v.index(L)
        e = L.elem(*i)
        v.ensure_el("same value as the scalar formula", out.elem(*i), inv_term(x.r, e.r, wavelength), e.nan)
        v.ensure("frame: radiance unchanged", L.version == 0)
    return f


CONTRACTS = []
for k in ("numpy", "dask", "xarray", "xarray-dask"):
    for dt in ("f4", "f8"):
        CONTRACTS.append(Contract("rad2temp[%s,%s]" % (k, dt), make("blackbody_rad2temp", k, dt, "f8")))
    CONTRACTS.append(Contract("wn_rad2temp[%s]" % k, make("blackbody_wn_rad2temp", k, "f8", None)))
    CONTRACTS.append(Contract("rad2temp by keyword[%s]" % k, make("blackbody_rad2temp", k, "f8", None, True)))
    CONTRACTS.append(Contract("radiance2tb[%s]" % k, make("radiance2tb", k, "f4", "f8",
                                                        mod="radiance_tb_conversion")))
ASSUMPTIONS = ["single-precision rounding is not modelled: for float32 the value obligation is over the reals"]


def scalar(v):
    w = mkworld()
    fn = w.load("pyspectral.blackbody").blackbody_rad2temp
    x, L = v.num("wave", gt=0), v.num("L", gt=0)
    out = v.must(v.call(fn, x, L), "returns")
    v.ensure_el("scalar radiance", out, inv_term(x.r, L.r, True))


CONTRACTS.append(Contract("rad2temp[scalar]", scalar))


# ---------------------------------------------------------------------------------- run-time form
KINDS = ["numpy", "dask", "xarray", "xarray-dask"]


def cases(rng, tier):
    n = {"quick": 1500, "thorough": 1500, "search": 3000}[tier]
    for k in range(n):
        ny, nx = rng.randint(1, 5), rng.randint(1, 5)
        yield dict(kind=KINDS[k % 4], dt=rng.choice(["f4", "f8", "f4", "f8", "i8"]), wl=rng.random() < 0.7,
                   wave=conc.logu(rng, 3e-6, 20e-6), shape=[ny, nx],
                   T=[rng.choice([rng.uniform(150, 350), rng.uniform(150, 350), None]) for _ in range(ny * nx)],
                   chunks=[rng.randint(1, ny), rng.randint(1, nx)], kw=rng.random() < 0.3,
                   via=rng.choice(["blackbody", "radiance2tb"]), wtype=rng.choice(["float", "f8", "f4"]),
                   scalar=rng.random() < 0.15, coords=rng.random() < 0.5)


def run_case(case):
    import dask
    import dask.array as da
    import numpy as np
    import xarray as xr
    from pyspectral import blackbody as bb
    from pyspectral.radiance_tb_conversion import radiance2tb
    wl = case["wl"] or case["dt"] == "i8"  # (per metre, radiances are large enough to be whole numbers)
    w = case["wave"] if wl else 1 / case["wave"]
    T = orc.fromlist(case["T"], case["shape"])
    L = np.array([orc.planck([w], [t], wl)[0, 0] for t in T.ravel()]).reshape(T.shape)
    L = (np.nan_to_num(L).round() if case["dt"] == "i8" else L).astype(case["dt"])
    inv = bb.blackbody_rad2temp if wl else bb.blackbody_wn_rad2temp
    if case["scalar"] and case["dt"] != "i8":
        x = float(L.ravel()[0])
        return conc.close(inv(w, x), T.ravel()[0], rtol=1e-10 if case["dt"] == "f8" else 1e-5)
    arg = orc.mk(L, case["kind"], tuple(case["chunks"]))
    if case["kind"].startswith("xarray") and case.get("coords"):
        arg = arg.rename("rad").assign_coords(y=np.arange(L.shape[0]) * 2.0, lon=(("y", "x"), np.zeros(L.shape)), t=5)
    wave = w if case["wtype"] == "float" else np.dtype(case["wtype"]).type(w)
    n = [0]

    def sched(dsk, keys, **k):
        n[0] += 1
        return dask.local.get_sync(dsk, keys, **k)
    with dask.config.set(scheduler=sched):
        if case["kw"]:
            out = inv(**{"wavelength" if wl else "wavenumber": wave, "radiance": arg})
        elif wl and case["via"] == "radiance2tb":
            out = radiance2tb(arg, wave)
        else:
            out = inv(wave, arg)
    if n[0]:
        return "computed eagerly (%d graph evaluations)" % n[0]
    want = {"numpy": np.ndarray, "dask": da.Array}.get(case["kind"], xr.DataArray)
    if not isinstance(out, want):
        return "container %s, expected %s" % (type(out), want)
    if case["kind"] == "xarray-dask" and not isinstance(out.data, da.Array):
        return "xarray result is not lazy"
    if case["kind"].startswith("xarray") and (out.dims != arg.dims or out.attrs != arg.attrs):
        return "xarray dims/attrs not preserved"
    if case["kind"].startswith("xarray") and (out.name != arg.name or set(out.coords) != set(arg.coords) or
                                              any(not out.coords[c].identical(arg.coords[c]) for c in arg.coords)):
        return "xarray name/coordinates not preserved"
    odt = np.result_type(L.dtype, "f4") if L.dtype.kind == "f" else np.dtype("f8")
    if wl and out.dtype != odt and not (L.dtype.kind == "i" and case["wtype"] == "f4"):
        return "dtype %s for %s radiances" % (out.dtype, L.dtype)
    v = orc.val(out)
    if np.asarray(v).dtype != out.dtype:
        return "computed dtype %s, announced %s" % (np.asarray(v).dtype, out.dtype)
    ref = np.array([orc_inv(w, float(x), wl) for x in L.ravel()]).reshape(L.shape)
    return conc.first(conc.close(v, ref, rtol=3e-5 if "f4" in (case["dt"], case["wtype"]) else 1e-9),
                      conc.unchanged("radiance", L, orc.val(arg)))


def orc_inv(w, x, wl):
    import math
    if math.isnan(x):
        return x
    if x == 0:
        return 0.0
    c1, c2 = orc.H * orc.C / orc.K, 2 * orc.H * orc.C ** 2
    if wl:
        return c1 / (w * math.log1p(c2 / (x * w ** 5)))
    return c1 * w / math.log1p(c2 * w ** 3 / x)
