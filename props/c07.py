"""C07: the solar reflectance of the 3.x micron band."""
import z3

from dv import conc, core
from dv.session import Contract
from dv.values import SArr, SNum
from props import orc
from props.nir import Nir


def refl(kind, lut=True, limits=False, dt="f8", shape=("ny", "nx"), det="det-1", flux=True, pre=None):
    def f(v):
        s = Nir(v, lut=lut, limits=limits, det=det, flux=flux, pre=pre)
        args = s.tbs(kind, dt, shape=shape)
        n0 = len(core.ctx().events)
        kw = {} if lut else {"lut": None}
        out = v.must(v.call(s.calc.reflectance_from_tbs, *args, **kw), "returns")
        if kind == "dask":
            v.ensure("lazy result", out.kind == "dask")
            if lut:
                v.ensure("nothing computed", not any(e[0] == "compute" for e in core.ctx().events[n0:]))
        else:
            v.ensure("numpy in, numpy out", out.kind == "numpy")
        v.ensure_shape("shape preserved", out, args[1].dims)
        if lut:
            v.ensure_dtype("floating type preserved", out, dt)
        i = v.index(args[1])
        el = [a.elem(*i) for a in args]
        want, miss = s.spec(*el)
        got = out.elem(*i)
        anynan = z3.Or(*[e.nan for e in el])
        v.ensure("missing where an input is missing", z3.Implies(anynan, got.num().nan))
        v.ensure("missing exactly outside the validity domain", z3.Implies(z3.Not(anynan), got.num().nan == miss))
        v.ensure_el("reflectance", got, want, miss, under=z3.Not(miss))
        for n, a in zip(("sunz", "tb_nir", "tb_thermal"), args):
            v.ensure("frame: %s unchanged" % n, a.version == 0)
    return f


def masked(kinds, co2=False):
    """Masked brightness temperatures: a masked pixel is a missing one."""
    def f(v):
        s = Nir(v)
        args = s.tbs(kinds, co2=co2)
        kw = {"tb_ir_co2": args[3]} if co2 else {}
        out = v.must(v.call(s.calc.reflectance_from_tbs, *args[:3], **kw), "returns")
        v.ensure("masked in, masked out", out.kind == "masked")
        v.ensure_shape("shape preserved", out, args[1].dims)
        i = v.index(args[1])
        el = [a.elem(*i) for a in args]
        hid = z3.Or(*[a.maskfn(*i) for a in args if a.maskfn is not None])
        want, miss = s.spec(*el)
        got, gm = out.elem(*i), out.maskfn(*i)
        v.ensure("masked exactly at masked or missing pixels and outside the validity domain", gm == z3.Or(hid, miss))
        v.ensure_el("reflectance", got, want, core.FALSE, under=z3.Not(z3.Or(hid, miss)))
        for n, a in zip(("sunz", "tb_nir", "tb_thermal"), args):
            v.ensure("frame: %s unchanged" % n, a.version == 0)
    return f


def scalars(v):
    s = Nir(v)
    sz, a, b = v.num("sz", lo=0, hi=80), v.num("t3", lo=200, hi=330), v.num("t11", lo=200, hi=330)
    out = v.must(v.call(s.calc.reflectance_from_tbs, sz, a, b), "returns")
    v.ensure_shape("one value", out, (1,))
    from dv.values import El
    want, miss = s.spec(sz.el(), a.el(), b.el())
    v.ensure_el("reflectance", out.elem(z3.IntVal(0)), want, miss)


def mismatch(nd, first=True):
    """The two brightness temperatures differ in at least one dimension, or in their number (also with as many pixels)."""
    def f(v):
        s = Nir(v)
        n, m = v.dim("n"), v.dim("m")
        if nd == 1:
            v.assume(n != m)
            x, y = (n,), (m,)
        elif nd == 2:
            n2, m2 = v.dim("n2"), v.dim("m2")
            v.assume(z3.Or(n != m, n2 != m2))
            x, y = (n, n2), (m, m2)
        else:
            x, y = (n,), (n, 1)
        if not first:
            x, y = y, x
        a, b, c = v.arr("sz", x), v.arr("t3", x), v.arr("t11", y)
        v.must_raise(v.call(s.calc.reflectance_from_tbs, a, b, c), ValueError, "different shapes rejected")
    return f


CONTRACTS = [
    Contract("reflectance[numpy,table]", refl("numpy")),
    Contract("reflectance[dask,table]", refl("dask")),
    Contract("reflectance[numpy,table,limits]", refl("numpy", limits=True)),
    Contract("reflectance[dask,table,limits]", refl("dask", limits=True)),
    Contract("reflectance[numpy,table,f4]", refl("numpy", dt="f4")),
    Contract("reflectance[dask,table,f4]", refl("dask", dt="f4")),
    Contract("reflectance[numpy,integral]", refl("numpy", lut=False, shape=("n",))),
    Contract("reflectance[numpy,table,det-2]", refl("numpy", det="det-2")),
    Contract("reflectance[numpy,table,no masking limit]", refl("numpy", limits="none")),
    Contract("reflectance[dask,table,no masking limit]", refl("dask", limits="none")),
    Contract("reflectance[numpy,table,default flux]", refl("numpy", flux=False)),
    Contract("reflectance[numpy,table,det-2,default flux]", refl("numpy", det="det-2", flux=False)),
    Contract("reflectance[numpy,table,det-2 after det-1,default flux]", refl("numpy", det="det-2", flux=False, pre="det-1")),
    Contract("reflectance[numpy,table,det-1 after det-2,default flux]", refl("numpy", flux=False, pre="det-2")),
    Contract("reflectance[masked]", masked(("numpy", "masked", "masked"))),
    Contract("reflectance[masked 3.x]", masked(("numpy", "masked", "numpy"))),
    Contract("reflectance[masked 11]", masked(("masked", "numpy", "masked"))),
    Contract("reflectance[masked,co2]", masked(("numpy", "masked", "masked", "masked"), co2=True)),
    Contract("reflectance[scalars]", scalars), Contract("shape mismatch", mismatch(1)),
    Contract("shape mismatch[2-d]", mismatch(2)), Contract("shape mismatch[1-d and column]", mismatch(3)), Contract("shape mismatch[column and 1-d]", mismatch(3, False)),
]
ASSUMPTIONS = ["RelativeSpectralResponse, get_config and np.load enter by their contracts",
               "table: regular from 150 K in steps of 0.1 K, positive radiances, arbitrary length and values",
               "Tb between 100 and 400 K, positive response integral, solar flux > 0 given; reflectance with an "
               "explicit lut=None is stated for 1-d input; masked input is proved with the table and bounded (run-time) without it",
               "a masked array enters a dask graph as its data; the solar spectrum enters by its contract (C10) when no flux is given"]


# ---------------------------------------------------------------------------------- run-time form
WL = [3.6, 3.63, 3.66, 3.7, 3.73, 3.76, 3.8, 3.84, 3.88, 3.92]
RS = [0.0, 0.1, 0.45, 0.9, 1.0, 0.97, 0.8, 0.4, 0.05, 0.0]


RESPS = [{"resp": None, "plat": "PlatA"}, {"resp": [0.0, 0.0, 0.2, 0.8, 1.0, 0.3, 0.0, 0.0, 0.0, 0.0], "plat": "PlatB"},
         {"resp": [0.5, 1.0, 0.9, 0.9, 0.8, 0.9, 1.0, 0.7, 0.5, 0.2], "plat": "PlatC"}]


def make_calc(case):
    """A real calculator on a scratch response file."""
    import os
    import numpy as np
    sc = np.array(case.get("resp") or RS)
    det = case.get("det", "det-1")
    dets = [(np.array(WL), sc, 3.76)]
    other = (np.array(WL), np.array([0, .9, 1, .4, .1, 0, 0, 0, 0, 0]), 3.66)
    if det != "det-1":
        dets = [other] + dets
    elif case.get("hist"):
        dets = dets + [other]
    plat = case.get("plat", "PlatA")
    cfgc = orc.rsr_files({(plat, "instra"): {"ch20": dets}})
    cfg = cfgc.__enter__()
    try:
        for f in os.listdir(cfg["tb2rad_dir"]):
            os.remove(os.path.join(cfg["tb2rad_dir"], f))
        from pyspectral.near_infrared_reflectance import Calculator
        kw = {}
        if case.get("limits"):
            kw = dict(sunz_threshold=case["limits"][0], masking_limit=case["limits"][1])
        if case.get("det", "det-1") != "det-1":
            kw["detector"] = case["det"]
        if case.get("flux") is not None:
            kw["solar_flux"] = case["flux"]
        if case.get("hist"):
            # an earlier calculator of the same program, for the other detector
            c = Calculator(plat, "instra", case.get("band", "ch20"),
                           **dict(kw, detector="det-2" if det == "det-1" else "det-1"))
            c.reflectance_from_tbs(np.array([30.0]), np.array([300.0]), np.array([280.0]))
        return Calculator(plat, "instra", case.get("band", "ch20"), **kw)
    finally:
        cfgc.__exit__()


def band_rad(T, resp, lut):
    """Spectral radiance of the band, on the 0.1 K grid when the table is used; also the response integral."""
    import numpy as np
    x = np.asarray(WL, "f4").astype(float) * 1e-6
    r = np.asarray(resp, "f4").astype(float)
    T = np.asarray(T, float)
    if lut:
        Tq = np.clip(np.floor(np.where(np.isnan(T), 200.0, T) * 10 + 1e-7), 1500, 3599) / 10
    else:
        Tq = T
    I = orc.trapz(r, x)
    out = np.array([np.nan if np.isnan(t) else orc.trapz(orc.planck(x.tolist(), [t])[0] * r, x) / I
                    for t in Tq.ravel()]).reshape(T.shape)
    return out, I


def spec_np(case, sz, t3, t11, t13=None):
    import numpy as np
    lut = case.get("lut", True)
    resp = case.get("resp") or RS
    thr, lim = case.get("limits") or (85.0, 85.0)
    l3, I = band_rad(t3, resp, lut)
    l11, _ = band_rad(t11, resp, lut)
    corr = 1.0 if t13 is None else (t11 - 0.25 * (t11 - t13)) ** 4 / t11 ** 4
    flux = case["flux"]
    if flux is None:
        # in-band flux of the calculator's own response curve (C10)
        from pyspectral.solar import SolarIrradianceSpectrum
        flux = SolarIrradianceSpectrum(dlambda=0.0005).inband_solarflux(
            {"wavelength": np.asarray(WL, "f4").astype(float), "response": np.asarray(resp, "f4").astype(float)})
    with np.errstate(all="ignore"):
        sol = flux * np.cos(np.deg2rad(np.clip(sz, 0, thr))) / np.pi
        den = sol - l11 * I * corr
        res = (l3 * I - l11 * I * corr) / den
        miss = np.isnan(t3) | np.isnan(t11) | np.isnan(sz) | np.isnan(corr) | (den < 0.005)
        if lim is not None:
            miss = miss | (sz < 0) | (sz > lim)
        for k in case.get("mask") or ():
            if k is not None:
                miss = miss | np.array(k).reshape(miss.shape)
        edge = np.abs(den - 0.005) < 1e-5
    return np.where(miss, np.nan, res), edge, l3, l11, I


def gen(rng, tier, n):
    for k in range(n):
        ny, nx = rng.randint(1, 4), rng.randint(1, 5)
        m = ny * nx

        def g(lo, hi, pn=0.12):
            return [None if rng.random() < pn else rng.choice([rng.uniform(lo, hi), round(rng.uniform(lo, hi), 1) + .05])
                    for _ in range(m)]
        t11 = g(200, 320)
        t3 = [None if (x is None or rng.random() < .1) else x + rng.uniform(-5, 60) for x in g(200, 320, 0)]
        sz = [rng.choice([rng.uniform(0, 84), rng.uniform(0, 84), rng.uniform(84, 100), rng.uniform(-10, 0), None, 0.0])
              for _ in range(m)]
        lim = None
        if rng.random() < 0.4:
            lim = [rng.choice([60.0, 80.0, 85.0, 88.0, 0.0]), rng.choice([60.0, 75.0, 85.0, 88.0, 92.0, None, 0, 0.0])]
        kind = rng.choice(["numpy", "numpy", "dask", "dask", "masked"])
        mask = None
        if kind == "masked":
            pm = rng.choice([0, 0.3])
            mask = [[rng.random() < pm for _ in range(m)] if rng.random() < 0.7 else None for _ in range(3)]
            if mask[1] is None and mask[2] is None:
                mask[1] = [rng.random() < pm for _ in range(m)]
        yield dict(sz=sz, t3=t3, t11=t11, shape=[ny, nx], kind=kind, mask=mask,
                   dt=rng.choice(["f8", "f8", "f4"]), flux=rng.choice([2.0, 2.0, rng.uniform(1, 5), rng.uniform(1, 5), 0.6, None, None, 0.0]), limits=lim,
                   lut=rng.random() < 0.75, det=rng.choice(["det-1", "det-1", "det-2"]),
                   hist=rng.random() < 0.25, **RESPS[rng.randrange(len(RESPS))])


def cases(rng, tier):
    for k, c in enumerate(gen(rng, tier, {"quick": 300, "thorough": 300, "search": 1500}[tier])):
        # one of the two brightness temperatures chunked, the rest not
        mix = (k // 10 % 2 + 1) if k % 10 == 4 and c["kind"] == "dask" else None
        yield dict(c, clash=k % 20 == 7, mix=mix)


def prep(case):
    import numpy as np
    sh = case["shape"] if case["lut"] else [len(case["t3"])]
    return [orc.fromlist(case[k], sh, case["dt"]) for k in ("sz", "t3", "t11")]


def mkargs(case, arrs):
    """The three inputs in the container under test (masks: some, all or none of them)."""
    import numpy as np
    if case["kind"] != "masked":
        mix = case.get("mix")
        return [orc.mk(a, case["kind"] if mix in (None, k) else "numpy") for k, a in enumerate(arrs)]
    return [a.copy() if k is None else np.ma.MaskedArray(a.copy(), mask=np.array(k).reshape(a.shape))
            for a, k in zip(arrs, case["mask"])]


def edge_angle(case, sz):
    """Zenith angles within rounding of the masking limit."""
    import numpy as np
    lim = (case["limits"] or [85, 85])[1]
    return np.zeros(sz.shape, bool) if lim is None else np.abs(sz - lim) < 1e-9


def unmasked(out):
    """Plain values; masked elements as NaN."""
    import numpy as np
    out = orc.val(out)
    return np.where(np.ma.getmaskarray(out), np.nan, np.ma.getdata(out)) if isinstance(out, np.ma.MaskedArray) \
        else np.asarray(out)


def run_case(case):
    import numpy as np
    calc = make_calc(case)
    sz, t3, t11 = prep(case)
    raw = [a.copy() for a in (sz, t3, t11)]
    args = mkargs(case, (sz, t3, t11))
    kw = {} if case["lut"] else {"lut": None}
    if case.get("clash"):
        # as many pixels, another shape
        n = t11.size
        for b, c in (((1, n), (n, 1)), ((n,), (n, 1)), ((n, 1), (n,)), ((1, n), (n,))):
            if b == c or n == 1 and len(b) == len(c):
                continue
            try:
                r = calc.reflectance_from_tbs(raw[0].reshape(b), raw[1].reshape(b), raw[2].reshape(c), **kw)
            except ValueError:
                continue
            return "shapes %s and %s accepted, result %s" % (b, c, np.shape(r))
        return None
    out = calc.reflectance_from_tbs(*args, **kw)
    if case["kind"] == "dask" and not hasattr(out, "compute"):
        return "dask input gave %s" % type(out)
    if case["kind"] == "numpy" and not isinstance(out, np.ndarray):
        return "numpy input gave %s" % type(out)
    if case["kind"] == "masked" and not isinstance(out, np.ma.MaskedArray):
        return "masked input gave %s" % type(out)
    if case["lut"] and out.dtype != np.dtype(case["dt"]):
        return "dtype %s for %s input" % (out.dtype, case["dt"])
    got = unmasked(out)
    want, edge, *_ = spec_np(case, *[a.astype(float) for a in raw])
    if np.shape(got) != want.shape:
        return "shape %s, expected %s" % (np.shape(got), want.shape)
    if case["dt"] == "f4":
        # single precision: table cell boundaries and the denominator limit may fall on either side
        fr = [np.abs(a.astype(float) * 10 - np.round(a.astype(float) * 10)) < 0.05 for a in raw[1:]]
        edge = edge | fr[0] | fr[1]
    else:
        edge = edge | edge_angle(case, raw[0])
    g2, w2 = np.where(edge, 0, got), np.where(edge, 0, want)
    m = conc.close(g2, w2, rtol=2e-3 if case["dt"] == "f4" else 1e-6, atol=1e-3 if case["dt"] == "f4" else 1e-8)
    return m or conc.first(*[conc.unchanged(n, a, np.ma.getdata(orc.val(b))) for n, a, b in zip(("sunz", "t3", "t11"), raw, args)])
