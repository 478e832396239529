"""C05: Tb -> radiance through a look-up table."""
import z3

from dv import conc, core
from dv.session import Contract
from dv.values import El, SArr, SNum, rv
from props import orc, sym
from props.c01 import planck_term
from props.c04 import setup


def lookup(kind, dt, res="0.1", scale_=10):
    def f(v):
        rec = sym.band(v, "b")
        w, _ = sym.rsr_world(sym.mkd({"ch4": sym.mkd({"det-1": rec[0]})}))
        mod = w.load("pyspectral.radiance_tb_conversion")
        q = sym.shims_q(res) if res != "any resolution" else v.num("resolution", gt=0)
        conv = v.must(v.call(mod.RadTbConverter, "P", "i", "ch4", tb_resolution=q), "constructor returns")
        n = v.dim("nlut", lo=1, hi=10**8)
        m0 = z3.Int("in:start")
        v.assume(z3.And(m0 >= 0, m0 < 10**8))
        scale = 1 / q.r if res == "any resolution" else scale_
        tb = SArr((n,), lambda i: El((z3.ToReal(m0 + i)) / scale), "f8", "numpy")
        rad = v.arr("radiance", (n,))
        T = v.arr("T", ("ny", "nx"), dt=dt, kind=kind, where=lambda r, i: z3.And(r >= 0, r * scale < 2**31 - 1))
        lut = sym.mkd({"tb": tb, "radiance": rad})
        norm = v.c.decide(z3.Bool("in:normalized"))
        out = v.must(v.call(conv.tb2radiance, T, lut=lut, **({} if norm else {"normalized": False})), "returns")
        v.ensure("unit", str(out["unit"]) == ("W/m^2 sr^-1 m^-1" if norm else "W/m^2 sr^-1"))
        v.ensure_el("scale is 1", SNum(rv(1)) * out["scale"], rv(1))
        R = out["radiance"]
        one = isinstance(R, type(None))
        if not isinstance(R, SArr):
            # a single-element input gives a scalar
            v.ensure("only a one-element input gives a scalar", z3.And(*[d == 1 for d in map(core_dim, T.dims)]))
            i = (z3.IntVal(0), z3.IntVal(0))
            got = R
        else:
            v.ensure_shape("one radiance per pixel", R, T.dims)
            v.ensure("container preserved", R.kind == kind)
            v.ensure_dtype("floating type preserved", R, dt)
            i = v.index(T)
            got = R.elem(*i)
        t = T.elem(*i).r
        k = z3.ToInt(t * scale) - m0
        k = z3.If(k < 0, 0, z3.If(k > n - 1, n - 1, k))
        v.ensure_el("tabulated radiance of the grid temperature at or below Tb, ends clamped", got, rad.elem(k).r)
        v.ensure("frame: Tb unchanged", T.version == 0)
        v.ensure("frame: table unchanged", rad.version == 0)
    return f


def core_dim(d):
    return d if z3.is_expr(d) else z3.IntVal(d)


def make_lut(det, space, normalized, anyres=False):
    def f(v):
        saved = []
        import props.c04 as c4
        orig = sym.rsr_world

        def rw(rsr, **kw):
            return orig(rsr, np_extra={"savez": lambda p, **k: saved.append((p, k))}, **kw)
        c4.sym.rsr_world = rw
        try:
            res = v.num("resolution", gt=0) if anyres else None
            conv, x, r, cw, n, _ = setup(v, det, space, "ch4", **({"tb_resolution": res} if anyres else {}))
        finally:
            c4.sym.rsr_world = orig
        path = v.str("path")
        v.must(v.call(conv.make_tb2rad_lut, path, **({} if normalized else {"normalized": False})), "returns")
        v.ensure("one table written", len(saved) == 1 and set(saved[0][1]) == {"tb", "radiance"})
        v.ensure("written to the requested path", saved[0][0] == path)
        tb, rad = saved[0][1]["tb"], saved[0][1]["radiance"]
        if anyres:
            nt = core_dim(tb.dims[0])
            v.ensure("150 K up to (not including) 360 K", z3.And(nt >= 1, rv(150) + z3.ToReal(nt - 1) * res.r < 360, rv(150) + z3.ToReal(nt) * res.r >= 360))
            v.ensure_shape("one radiance per temperature", rad, tb.dims)
        else:
            v.ensure_shape("150 K up to (not including) 360 K in steps of 0.1 K", tb, (2100,))
            v.ensure_shape("one radiance per temperature", rad, (2100,))
        (i,) = v.index(tb)
        t = rv(150) + z3.ToReal(i) * (res.r if anyres else rv("0.1"))
        v.ensure_el("temperature grid", tb.elem(i), t)
        y = sym.earr((n,), lambda j: planck_term(x.elem(j).r, t, space == "wavelength") * r.elem(j).r)
        integral = sym.trz(r, x).r
        v.assume(integral != 0)
        want = sym.trz(y, x).r
        v.ensure_el("band radiance of the grid temperature", rad.elem(i), want / integral if normalized else want)
    return f


CONTRACTS = [Contract("lookup[%s,%s,%s]" % (k, d, r), lookup(k, d, r, s)) for k, d, r, s in
             [("numpy", "f8", "0.1", 10), ("numpy", "f4", "0.1", 10), ("dask", "f8", "0.1", 10),
              ("dask", "f4", "0.1", 10), ("numpy", "f8", "0.5", 2), ("numpy", "f8", "0.005", 200), ("numpy", "f8", "any resolution", None)]]
CONTRACTS += [Contract("make_tb2rad_lut[%s,%s,%s]" % a, make_lut(*a)) for a in
              [("det-1", "wavelength", True), ("det-2", "wavelength", True), ("det-1", "wavenumber", True),
               ("det-1", "wavelength", False)]]
CONTRACTS += [Contract("make_tb2rad_lut[any resolution]", make_lut("det-1", "wavelength", True, True))]
ASSUMPTIONS = ["the table starts on a multiple of its resolution, is regular, and Tb x resolution stays in int32 range",
               "RelativeSpectralResponse enters by its contract (C18)", "np.savez/np.load store and return the arrays"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    n = {"quick": 800, "thorough": 1000, "search": 3000}[tier]
    for k in range(n):
        res, sc = rng.choice([(0.1, 10), (0.1, 10), (0.5, 2), (1.0, 1), (0.01, 100), (0.005, 200)])
        nt = rng.randint(1, 8)
        start = rng.choice([150.0, 150.0, 200.0])
        nlut = rng.choice([1, 5, 50, 500, 500, int(210 / res)])
        hi = start + nlut * res
        T = [rng.choice([rng.uniform(max(0, start - 20), hi + 20), rng.uniform(100, 380), rng.uniform(300, 1200), start, hi - res, hi,
                         start + res * rng.randint(0, nlut)]) for _ in range(nt)]
        yield dict(mode="lookup", res=res, sc=sc, start=start, nlut=nlut, T=T, kind=rng.choice(["numpy", "dask"]),
                   dt=rng.choice(["f8", "f4"]), d2=rng.random() < 0.3)
    for k in range({"quick": 8, "thorough": 20, "search": 60}[tier]):
        c = rng.uniform(3.6, 13)
        m = rng.randint(4, 12)
        yield dict(mode="make", wl=orc.grid(rng, c - .3, c + .3, m), resp=orc.response(rng, m), cw=c,
                   space=rng.choice(["wavelength", "wavenumber"]), norm=rng.choice([True, True, False]),
                   res=rng.choice([None, 0.1, 0.5, 0.8, 0.4, 1.0, 0.25, 11.0]))


def model_cases(name, m):
    return ()


def run_case(case):
    import os
    import numpy as np
    if case["mode"] == "make":
        wl, rs = np.array(case["wl"]), np.array(case["resp"])
        with orc.rsr_files({("PlatA", "instra"): {"ch4": [(wl, rs, case["cw"])]}}):
            from pyspectral.radiance_tb_conversion import RadTbConverter
            conv = RadTbConverter("PlatA", "instra", "ch4", wavespace=case["space"], **({"tb_resolution": case["res"]} if case.get("res") else {}))
            with conc.scratchdir() as d:
                p = os.path.join(d, "lut.npz")
                conv.make_tb2rad_lut(p, **({} if case["norm"] else {"normalized": False}))
                if not os.path.exists(p):
                    return "no table at the requested path"
                lut = {k: np.array(x) for k, x in conv.read_tb2rad_lut(p).items()}
        w, r = np.asarray(wl, "f4").astype(float), np.asarray(rs, "f4").astype(float)
        if case["space"] == "wavelength":
            x = w * 1e-6
        else:
            x, r = 100.0 / (1e-4 * w[::-1]), r[::-1]
        res = case.get("res") or 0.1
        T = 150 + res * np.arange(int(np.ceil(round(210 / res, 6))))
        m = conc.close(lut["tb"], T, rtol=1e-9)
        if m:
            return "grid: " + m
        ks = list(range(0, len(T), 97)) + [len(T) - 1]
        P = orc.planck(x.tolist(), T[ks].tolist(), case["space"] == "wavelength")
        want = np.array([orc.trapz(p * r, x) for p in P])
        if case["norm"]:
            want /= orc.trapz(r, x)
        return conc.close(lut["radiance"][ks], want, rtol=2e-5)
    with orc.rsr_files({("PlatA", "instra"): {"ch4": [(np.linspace(10, 12, 9), np.array([0, .1, .5, .9, 1, .9, .5, .1, 0]), 11.0)]}}):
        from pyspectral.radiance_tb_conversion import RadTbConverter
        conv = RadTbConverter("PlatA", "instra", "ch4", tb_resolution=case["res"])
    sc = case["sc"]
    m0 = int(round(case["start"] * sc))
    lut = {"tb": (m0 + np.arange(case["nlut"])) / sc, "radiance": np.cumsum(np.ones(case["nlut"])) * 3.25}
    lut0 = {k: x.copy() for k, x in lut.items()}
    T = np.array(case["T"], dtype=case["dt"])
    if case["d2"]:
        T = T.reshape(-1, 1)
    arg = orc.mk(T, case["kind"])
    T0 = T.copy()
    out = conv.tb2radiance(arg, lut=lut)
    if out["unit"] != "W/m^2 sr^-1 m^-1" or out["scale"] != 1:
        return "unit %r, scale %r" % (out["unit"], out["scale"])
    out = out["radiance"]
    if case["kind"] == "dask" and T.size > 1 and not hasattr(out, "compute"):
        return "dask input computed eagerly"
    got = np.asarray(orc.val(out))
    prod = (T.astype(case["dt"]) * np.dtype(case["dt"]).type(sc) if case["dt"] == "f4" else T * float(sc))
    k = np.floor(prod).astype(int) - m0
    # right at a grid point the floating product may fall on either side
    near = np.abs(prod - np.round(prod)) < 1e-3
    k2 = np.round(prod).astype(int) - m0
    k, k2 = np.clip(k, 0, case["nlut"] - 1), np.clip(k2, 0, case["nlut"] - 1)
    a, b = lut0["radiance"][k], lut0["radiance"][k2]
    g = got.reshape(a.shape) if got.size == a.size else None
    if g is None:
        return "shape %s for input %s" % (got.shape, T.shape)
    if T.size > 1 and got.shape != T.shape:
        return "shape %s for input %s" % (got.shape, T.shape)
    if T.size > 1 and got.dtype != T.dtype:
        return "dtype %s for %s" % (got.dtype, T.dtype)
    bad = ~(np.isclose(g, a, rtol=1e-6) | (near & np.isclose(g, b, rtol=1e-6)))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        return "Tb %r gave %r, expected %r" % (float(T[i]), float(g[i]), float(a[i]))
    return conc.first(conc.unchanged("Tb", T0, orc.val(arg)), conc.unchanged("lut", lut0["radiance"], lut["radiance"]))
