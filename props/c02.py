"""C02: the inverse Planck functions invert the Planck law."""
import math

import z3

from dv import conc, prover
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import rv
from props import orc
from props.c01 import C, H, K

C1, C2 = rv(H * C / K), rv(2 * H * C * C)


def inv_term(wave, L, wavelength):
    if wavelength:
        return C1 / (wave * prover.LOG(C2 / (L * wave * wave * wave * wave * wave) + 1))
    return C1 * wave / prover.LOG(C2 * wave * wave * wave / L + 1)


def formula(fname, wavelength, kind="numpy", dt="f8"):
    def f(v):
        bb = mkworld().load("pyspectral.blackbody")
        x = v.num("wave", gt=0)
        L = v.arr("L", ("ny", "nx"), dt=dt, kind=kind, nan=dt[0] == "f", where=lambda r, i: r > 0)
        out = v.must(v.call(getattr(bb, fname), x, L), "returns")
        v.ensure_shape("shape preserved", out, L.dims)
        i = v.index(L)
        e = L.elem(*i)
        v.ensure_el("inverse Planck formula", out.elem(*i), inv_term(x.r, e.r, wavelength), e.nan)
        v.ensure("frame: radiance unchanged", L.version == 0)
    return f


def roundtrip_t(fwd, inv, wavelength):
    def f(v):
        bb = mkworld().load("pyspectral.blackbody")
        wl = v.arr("wave", ("nw",), where=lambda r, i: r > 0)
        T = v.arr("T", ("nt",), where=lambda r, i: r > 1)
        rad = v.must(v.call(getattr(bb, fwd), wl, T), "returns")
        (j,) = v.index(wl, "w")
        (i,) = v.index(T, "t")
        from dv.values import SNum
        x = SNum(wl.elem(j).r)
        tb = v.must(v.call(getattr(bb, inv), x, rad[:, SNum(j, kind="int")]), "inverse returns")
        v.ensure_el("T -> radiance -> T is the identity", tb.elem(i), T.elem(i).r)
    return f


def roundtrip_l(fwd, inv, wavelength):
    def f(v):
        bb = mkworld().load("pyspectral.blackbody")
        wl = v.arr("wave", (1,), where=lambda r, i: r > 0)
        L = v.arr("L", ("n",), where=lambda r, i: r > 0)
        from dv.values import SNum
        x = SNum(wl.elem(z3.IntVal(0)).r)
        tb = v.must(v.call(getattr(bb, inv), x, L), "inverse returns")
        (i,) = v.index(L)
        t = tb.elem(i)
        v.ensure("temperature positive", z3.And(z3.Not(t.nan), t.r > 0))
        # the Planck function masks |T| <= 1e-6 K; below that a radiance does not round-trip
        v.assume(t.r > rv("0.000001"))
        rad = v.must(v.call(getattr(bb, fwd), wl, tb), "returns")
        v.ensure_el("radiance -> T -> radiance is the identity", rad.elem(i, z3.IntVal(0)), L.elem(i).r)
    return f


def monotone(inv, wavelength):
    def f(v):
        bb = mkworld().load("pyspectral.blackbody")
        x = v.num("wave", gt=0)
        L = v.arr("L", ("n",), where=lambda r, i: r > 0)
        tb = v.must(v.call(getattr(bb, inv), x, L), "returns")
        (i,), (j,) = v.index(L, "i"), v.index(L, "j")
        v.ensure("brightness temperature increases with radiance",
                 z3.Implies(L.elem(i).r < L.elem(j).r, tb.elem(i).r < tb.elem(j).r))
    return f


CONTRACTS = [
    Contract("rad2temp formula", formula("blackbody_rad2temp", True)),
    Contract("wn_rad2temp formula", formula("blackbody_wn_rad2temp", False)),
    Contract("rad2temp formula[single precision]", formula("blackbody_rad2temp", True, dt="f4")),
    Contract("wn_rad2temp formula[single precision]", formula("blackbody_wn_rad2temp", False, dt="f4")),
    Contract("rad2temp formula[integers]", formula("blackbody_rad2temp", True, dt="i4")),
    Contract("wn_rad2temp formula[integers]", formula("blackbody_wn_rad2temp", False, dt="i4")),
    Contract("rad2temp formula[chunked]", formula("blackbody_rad2temp", True, "dask")),
    Contract("wn_rad2temp formula[chunked]", formula("blackbody_wn_rad2temp", False, "dask")),
    Contract("rad2temp(blackbody(T)) = T", roundtrip_t("blackbody", "blackbody_rad2temp", True)),
    Contract("wn_rad2temp(blackbody_wn(T)) = T", roundtrip_t("blackbody_wn", "blackbody_wn_rad2temp", False)),
    Contract("blackbody(rad2temp(L)) = L", roundtrip_l("blackbody", "blackbody_rad2temp", True)),
    Contract("blackbody_wn(wn_rad2temp(L)) = L", roundtrip_l("blackbody_wn", "blackbody_wn_rad2temp", False)),
    Contract("rad2temp monotone", monotone("blackbody_rad2temp", True)),
    Contract("wn_rad2temp monotone", monotone("blackbody_wn_rad2temp", False)),
]
ASSUMPTIONS = ["the temperature -> radiance -> temperature contract is stated for T > 1 K"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    n = {"quick": 1500, "thorough": 2500, "search": 4000}[tier]
    for k in range(n):
        wl = rng.random() < 0.5
        w = conc.logu(rng, 1e-6, 30e-6)
        T = [rng.uniform(100, 1500) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.2:
            T[0] = None
        dt = rng.choice(["f8", "f8", "f8", "f4", "i8", "int"])
        if dt == "f4":      # within the range of single precision
            w, T = max(w, 3e-6), [t and max(t, 180) for t in T]
        yield dict(wl=wl, wave=w if wl else 1 / w, T=T, shape=rng.choice([None, "col", "row"]),
                   wtype=rng.choice(["float", "float", "np64"]), dt=dt)


def model_cases(name, m):
    wl = not name.startswith(("wn_", "blackbody_wn"))
    for w in (1e-5, 4e-6, 1.2e-5):
        yield dict(wl=wl, wave=w if wl else 1 / w, T=[200.0, 250.0, 300.0, None], shape=None, wtype="float")


def run_case(case):
    import numpy as np
    from pyspectral import blackbody as bb
    from pyspectral.radiance_tb_conversion import radiance2tb
    T = orc.fromlist(case["T"])
    w = case["wave"]
    L = np.array([orc.planck([w], [t], case["wl"])[0, 0] for t in T])
    if case["shape"]:
        sh = (-1, 1) if case["shape"] == "col" else (1, -1)
        L, T = L.reshape(sh), T.reshape(sh)
    L0 = L.copy()
    x = np.float64(w) if case["wtype"] == "np64" else w
    inv = bb.blackbody_rad2temp if case["wl"] else bb.blackbody_wn_rad2temp
    dt = case.get("dt", "f8")
    if dt != "f8":
        # the temperature of single precision or whole-number radiances (those large enough to be rounded)
        if not case["wl"] and dt != "f4":
            L = np.arange(1.0, L.size + 1).reshape(L.shape)
        if dt != "f4":
            L = np.where(np.isnan(L), 3, np.maximum(np.round(L), 1)).astype("i8")
        else:
            L = L.astype("f4")
        want = orc.inverse(w, L.astype("f8"), case["wl"])
        if dt == "int":
            return conc.close(inv(x, int(L.ravel()[0])), want.ravel()[0], rtol=1e-10)
        out = inv(x, L)
        return conc.close(out, want, rtol=1e-10 if dt == "i8" else 2e-3)
    tb = inv(x, L)
    m = conc.first(conc.close(tb, T, rtol=1e-10), conc.unchanged("radiance", L0, L))
    if m:
        return "inverse: " + m
    if case["wl"]:
        m = conc.close(radiance2tb(L, w), T, rtol=1e-10)
        if m:
            return "radiance2tb: " + m
    fwd = bb.blackbody if case["wl"] else bb.blackbody_wn
    m = conc.close(orc.val(fwd(np.array([w]), tb))[:, 0], L0.ravel(), rtol=1e-10)
    if m:
        return "round trip: " + m
    k = np.argsort(L0.ravel())
    t = np.asarray(tb).ravel()[k]
    t = t[~np.isnan(t)]
    if (np.diff(t) < -1e-6).any():
        return "not monotone"
