"""C04: Tb -> band radiance is the response-weighted Planck radiance; radiance -> Tb uses the central wavelength."""
from fractions import Fraction

import z3

from dv import conc
from dv.session import Contract
from dv.values import SNum, rv
from props import orc, sym
from props.c01 import planck_term
from props.c02 import inv_term

EPS = rv(Fraction(1, 10**6))


def setup(v, det, space, bandarg, scale=None, **more):
    n = v.dim("n", lo=2)
    recs = {}
    for d in ("det-1", "det-2"):
        recs[d] = sym.band(v, d, n)
    other = sym.band(v, "other")
    rsr = sym.mkd({"ch4": sym.mkd({d: recs[d][0] for d in recs}), "ch5": sym.mkd({"det-1": other[0]})})
    if scale is not None:
        recs[det][0]["response"] = recs[det][2] * scale
    if bandarg is None:
        # numeric band: closest central wavelengths decide, only ch4 qualifies
        q = v.num("bandwl", gt=0)
        cw, ow = recs["det-1"][3].r, other[3].r
        v.assume(z3.And(q.r - cw < rv("0.1"), cw - q.r < rv("0.1"), z3.Or(ow - q.r > 1, q.r - ow > 1)))
        bandarg = q
    w, calls = sym.rsr_world(rsr)
    mod = w.load("pyspectral.radiance_tb_conversion")
    kw = {"detector": det, "wavespace": space, **more}
    conv = v.must(v.call(mod.RadTbConverter, "Some-Platform", "someinstr", bandarg, **kw), "constructor returns")
    v.ensure("responses of the requested platform and instrument", len(calls) == 1 and
             str(calls[0][0]) == "Some-Platform" and str(calls[0][1]) == "someinstr")
    rec, wl, rs, cw = recs[det]
    nz = n
    if space == "wavelength":
        x = sym.earr((n,), lambda j: wl.elem(j).r * rv("1e-6"))
        r = sym.earr((n,), lambda j: rs.elem(j).r)
    else:
        x = sym.earr((n,), lambda j: 100 / (rv("1e-4") * wl.elem(nz - 1 - j).r))
        r = sym.earr((n,), lambda j: rs.elem(nz - 1 - j).r)
    return conv, x, r, cw, n, (wl, rs)


def tb2rad(det, space, bandarg, normalized, kind="numpy"):
    wlsp = space == "wavelength"

    def f(v):
        conv, x, r, cw, n, _ = setup(v, det, space, bandarg)
        T = v.arr("T", ("nt",), kind=kind, nan=True)
        out = v.must(v.call(conv.tb2radiance, T, normalized=normalized), "tb2radiance returns")
        rad = out["radiance"]
        v.ensure_shape("one radiance per temperature", rad, T.dims)
        (i,) = v.index(T)
        t = T.elem(i)
        y = sym.earr((n,), lambda j: planck_term(x.elem(j).r, t.r, wlsp) * r.elem(j).r)
        want = sym.trz(y, x).r
        if normalized:
            integral = sym.trz(r, x).r
            v.assume(integral != 0)
            want = want / integral
        nan = z3.Or(t.nan, z3.And(t.r <= EPS, t.r >= -EPS))
        v.ensure_el("radiance", rad.elem(i), want, nan)
        unit = ("W/m^2 sr^-1 m^-1" if wlsp else "W/m^2 sr^-1 (m^-1)^-1") if normalized else "W/m^2 sr^-1"
        v.ensure("unit", str(out["unit"]) == unit)
        v.ensure_el("scale is 1", SNum(rv(1)) * out["scale"], rv(1))
        v.ensure("frame: T unchanged", T.version == 0)
    return f


def related(det, space):
    """unnormalised = normalised x response integral; independent of the amplitude of the response."""
    def f(v):
        conv, x, r, cw, n, (wl, rs) = setup(v, det, space, "ch4")
        k = v.num("k", gt=0)
        w2 = sym.rsr_world(sym.mkd({"ch4": sym.mkd({det: sym.mkd({"wavelength": wl, "response": rs * k,
                                                                   "central_wavelength": cw})})}))[0]
        conv2 = v.must(v.call(w2.load("pyspectral.radiance_tb_conversion").RadTbConverter, "P", "i", "ch4",
                              detector=det, wavespace=space), "constructor returns")
        T = v.arr("T", ("nt",), where=lambda q, i: q > 1)
        a = v.must(v.call(conv.tb2radiance, T, normalized=True), "returns")["radiance"]
        b = v.must(v.call(conv.tb2radiance, T, normalized=False), "returns")["radiance"]
        c = v.must(v.call(conv2.tb2radiance, T), "returns")["radiance"]
        integral = sym.trz(r, x).r
        v.assume(integral != 0)
        (i,) = v.index(T)
        v.ensure_el("integrated = spectral x response integral", b.elem(i), a.elem(i).r * integral)
        v.ensure_el("scale invariance of the normalised radiance", c.elem(i), a.elem(i).r)
        v.ensure_el("rsr_integral attribute", conv.rsr_integral, integral)
    return f


def rad2tb(det):
    def f(v):
        conv, x, r, cw, n, _ = setup(v, det, "wavelength", "ch4")
        L = v.arr("L", ("ny", "nx"), nan=True, where=lambda q, i: q > 0)
        out = v.must(v.call(conv.radiance2tb, L), "returns")
        i = v.index(L)
        e = L.elem(*i)
        v.ensure_el("inverse Planck at the central wavelength", out.elem(*i),
                    inv_term(cw.r * rv("1e-6"), e.r, True), e.nan)
    return f


def badspace(v):
    s = v.str("space")
    w, calls = sym.rsr_world(sym.mkd({}))
    mod = w.load("pyspectral.radiance_tb_conversion")
    from dv.values import strlit
    z = s.parts[0] if hasattr(s, "parts") else None
    v.assume(s != "wavelength")
    v.assume(s != "wavenumber")
    v.must_raise(v.call(mod.RadTbConverter, "P", "i", "b", wavespace=s), AttributeError, "unknown wave space rejected")


CONTRACTS = [Contract("tb2radiance[%s,%s,%s,%s,%s]" % (d, s, "name" if b else "number", "norm" if n else "integrated",
                                                       k), tb2rad(d, s, b, n, k))
             for d, s, b, n, k in [
                 ("det-1", "wavelength", "ch4", True, "numpy"), ("det-1", "wavelength", "ch4", False, "numpy"),
                 ("det-2", "wavelength", "ch4", True, "numpy"), ("det-1", "wavenumber", "ch4", True, "numpy"),
                 ("det-2", "wavenumber", "ch4", False, "numpy"), ("det-1", "wavelength", None, True, "numpy"),
                 ("det-1", "wavenumber", None, True, "numpy"), ("det-1", "wavelength", "ch4", True, "dask"),
                 ("det-2", "wavenumber", "ch4", True, "dask")]]
CONTRACTS += [Contract("tb2radiance related[%s,%s]" % (d, s), related(d, s))
              for d, s in (("det-1", "wavelength"), ("det-2", "wavenumber"))]
CONTRACTS += [Contract("radiance2tb[%s]" % d, rad2tb(d)) for d in ("det-1", "det-2")]
CONTRACTS += [Contract("wave space rejected", badspace)]
ASSUMPTIONS = ["RelativeSpectralResponse enters by its contract (established for reading by C18)",
               "trapezoid congruence/linearity lemmas (proved in lean/Trapz.lean)",
               "band responses with two detectors and two bands; grid lengths, values and temperatures unbounded"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    n = {"quick": 800, "thorough": 800, "search": 3000}[tier]
    for k in range(n):
        c = rng.uniform(3.6, 13.5)
        nn = rng.randint(4, 25)
        off = rng.uniform(0.5, 2)
        yield dict(wl=orc.grid(rng, c - 0.4, c + 0.4, nn), resp=[orc.response(rng, nn), orc.response(rng, nn)],
                   cw=[c, c + 0.02], other=c + off, det=rng.choice(["det-1", "det-2"]),
                   space=rng.choice(["wavelength", "wavenumber"]), numeric=rng.random() < 0.3,
                   q=c + rng.uniform(-0.09, 0.09), norm=rng.random() < 0.6, flag=rng.choice([None, None, "int", "numpy"]), kind=rng.choice(["numpy", "numpy", "dask"]),
                   T=[rng.choice([rng.uniform(150, 400), rng.uniform(150, 400), None, 0.0])
                      for _ in range(rng.randint(1, 6))], amp=conc.logu(rng, 0.1, 10))


def run_case(case):
    import numpy as np
    det, sp = case["det"], case["space"]
    wl = np.array(case["wl"])
    dets = [(wl, np.array(r) * case["amp"], c) for r, c in zip(case["resp"], case["cw"])]
    o = case["other"]
    oth = (np.linspace(o - 0.3, o + 0.3, 9), np.array([0, .1, .5, .9, 1, .9, .5, .1, 0]), o)
    with orc.rsr_files({("PlatA", "instra"): {"ch4": dets, "ch5": [oth]}}):
        from pyspectral.radiance_tb_conversion import RadTbConverter
        conv = RadTbConverter("PlatA", "instra", case["q"] if case["numeric"] else "ch4", detector=det, wavespace=sp)
    k = int(det[-1]) - 1
    # the file stores single precision
    w, r, c = np.asarray(dets[k][0], "f4").astype(float), np.asarray(dets[k][1], "f4").astype(float), dets[k][2]
    if sp == "wavelength":
        x = w * 1e-6
    else:
        x, r = 100.0 / (1e-4 * w[::-1]), r[::-1]
    T = orc.fromlist(case["T"])
    T0 = T.copy()
    out = conv.tb2radiance(orc.mk(T, case["kind"]), normalized={"int": int, "numpy": np.bool_}.get(case.get("flag"), bool)(case["norm"]))
    P = orc.planck(x.tolist(), T0.tolist(), sp == "wavelength")
    want = np.array([orc.trapz(P[i] * r, x) for i in range(len(T0))])
    if case["norm"]:
        want = want / orc.trapz(r, x)
    rad = out["radiance"]
    unit = ("W/m^2 sr^-1 m^-1" if sp == "wavelength" else "W/m^2 sr^-1 (m^-1)^-1") if case["norm"] else "W/m^2 sr^-1"
    m = conc.first(conc.close(orc.val(rad), want, rtol=3e-7),
                   None if out["unit"] == unit else "unit %r, expected %r" % (out["unit"], unit),
                   None if out["scale"] == 1.0 else "scale %r" % (out["scale"],),
                   conc.unchanged("T", T0, T))
    if m:
        return "tb2radiance: " + m
    if sp == "wavelength":
        from props.c03 import orc_inv
        L = orc.planck([c * 1e-6], [200.0, 250.0, 310.0])[:, 0]
        return conc.close(conv.radiance2tb(L), [orc_inv(c * 1e-6, x, True) for x in L], rtol=1e-8)
