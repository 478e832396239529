"""C06: the SEVIRI regression converter."""
from fractions import Fraction

import z3

from dv import conc, prover
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import SNum, rv
from props import orc
from props.c01 import C, H, K

# Central wavenumber (cm-1), alpha, beta: EUMETSAT, "Conversion from radiances to reflectances/brightness temperatures"
TABLE = {
    "IR3.9": {"Meteosat-8": ("2567.330", "0.9956", "3.410"), "Meteosat-9": ("2568.832", "0.9954", "3.438")},
    "WV6.2": {"Meteosat-8": ("1598.103", "0.9962", "2.218"), "Meteosat-9": ("1600.548", "0.9963", "2.185")},
    "WV7.3": {"Meteosat-8": ("1362.081", "0.9991", "0.478"), "Meteosat-9": ("1360.330", "0.9991", "0.470")},
    "IR8.7": {"Meteosat-8": ("1149.069", "0.9996", "0.179"), "Meteosat-9": ("1148.620", "0.9996", "0.179")},
    "IR9.7": {"Meteosat-8": ("1034.343", "0.9999", "0.060"), "Meteosat-9": ("1035.289", "0.9999", "0.056")},
    "IR10.8": {"Meteosat-8": ("930.647", "0.9983", "0.625"), "Meteosat-9": ("931.700", "0.9983", "0.640")},
    "IR12.0": {"Meteosat-8": ("839.660", "0.9988", "0.397"), "Meteosat-9": ("836.445", "0.9988", "0.408")},
    "IR13.4": {"Meteosat-8": ("752.387", "0.9981", "0.578"), "Meteosat-9": ("751.792", "0.9981", "0.561")},
}
ALIAS = {"IR_039": "IR3.9", "IR_087": "IR8.7", "IR_097": "IR9.7", "IR_108": "IR10.8", "IR_120": "IR12.0",
         "IR_134": "IR13.4"}
UNIT = "W/m^2 sr^-1 (m^-1)^-1"
c1, c2 = 2 * H * C * C, H * C / K


def coef(band, plat):
    v, a, b = (Fraction(x) for x in TABLE[band][plat])
    return v * 100, a, b


def forward(band, arg, kind="numpy"):
    def f(v):
        mod = mkworld().load("pyspectral.radiance_tb_conversion")
        for plat in ("Meteosat-8", "Meteosat-9"):
            vc, al, be = coef(band, plat)
            conv = v.must(v.call(mod.SeviriRadTbConverter, plat, arg), "constructor returns")
            T = v.arr("T" + plat[-1], ("n",), kind=kind, nan=True, where=lambda r, i: r > 1)
            out = v.must(v.call(conv.tb2radiance, T), "tb2radiance returns")
            rad = out["radiance"]
            v.ensure_shape("shape preserved", rad, T.dims)
            (i,) = v.index(T, plat[-1])
            e = T.elem(i)
            want = rv(c1 * vc ** 3) / (prover.EXP(rv(c2 * vc) / (rv(al) * e.r + rv(be))) - 1)
            v.ensure_el("regression radiance, %s" % plat, rad.elem(i), want, e.nan)
            v.ensure("unit", str(out["unit"]) == UNIT)
            tb = v.must(v.call(conv.radiance2tb, rad), "radiance2tb returns")
            v.ensure_el("Tb -> radiance -> Tb is the identity, %s" % plat, tb.elem(i), e.r, e.nan)
            L = v.arr("L" + plat[-1], ("m",), kind=kind, nan=True, where=lambda r, i: r > 0)
            (j,) = v.index(L, "L" + plat[-1])
            e = L.elem(j)
            t2 = v.must(v.call(conv.radiance2tb, L), "radiance2tb returns")
            want = rv(c2 * vc) / (rv(al) * prover.LOG(rv(c1 * vc ** 3) / e.r + 1)) - rv(be / al)
            v.ensure_el("regression Tb, %s" % plat, t2.elem(j), want, e.nan)
            v.ensure("frame: inputs unchanged", T.version == 0 and L.version == 0)
    return f


def rejects(v):
    mod = mkworld().load("pyspectral.radiance_tb_conversion")
    conv = v.must(v.call(mod.SeviriRadTbConverter, "Meteosat-9", "IR3.9"), "constructor returns")
    T = v.arr("T", ("n",), where=lambda r, i: r > 1)
    from props import sym
    lut = sym.mkd({"tb": v.arr("tb", ("m",)), "radiance": v.arr("rad", ("m",))})
    v.must_raise(v.call(conv.tb2radiance, T, lut=lut), NotImplementedError, "look-up tables rejected")
    v.must_raise(v.call(conv.tb2radiance, T, normalized=False), NotImplementedError, "integrated radiance rejected")
    v.must_raise(v.call(conv.tb2radiance, T, lut=sym.mkd({})), NotImplementedError, "even an empty table is rejected")
    q = v.num("wl", gt=0)
    v.must_raise(v.call(mod.SeviriRadTbConverter, "Meteosat-9", q), AttributeError, "a numeric band is rejected")


CONTRACTS = [Contract("regression[%s]" % b, forward(b, b)) for b in TABLE]
CONTRACTS += [Contract("regression[%s as %s]" % (b, a), forward(b, a)) for a, b in ALIAS.items()]
CONTRACTS += [Contract("regression[IR10.8,dask]", forward("IR10.8", "IR10.8", "dask")), Contract("rejects", rejects)]
ASSUMPTIONS = ["the regression coefficients are the published EUMETSAT table for Meteosat-8 and Meteosat-9, 8 bands"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for b in TABLE:
        for p in TABLE[b]:
            yield dict(band=b, arg=b, plat=p, T=[rng.uniform(150, 350) for _ in range(4)] + [None], kind="numpy")
    for a, b in ALIAS.items():
        yield dict(band=b, arg=a, plat="Meteosat-9", T=[rng.uniform(150, 350) for _ in range(4)], kind="dask")
    for k in range({"quick": 200, "thorough": 200, "search": 600}[tier]):
        b = rng.choice(sorted(TABLE))
        yield dict(band=b, arg=b, plat=rng.choice(["Meteosat-8", "Meteosat-9"]), kind=rng.choice(["numpy", "dask"]),
                   T=[rng.uniform(2, 1000) for _ in range(4)])


def run_case(case):
    import math
    import numpy as np
    from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
    vc, al, be = (float(x) for x in coef(case["band"], case["plat"]))
    conv = SeviriRadTbConverter(case["plat"], case["arg"])
    T = orc.fromlist(case["T"])
    T0 = T.copy()
    out = conv.tb2radiance(orc.mk(T, case["kind"]))
    k1, k2 = 2 * orc.H * orc.C ** 2, orc.H * orc.C / orc.K

    def ex(x):
        return math.inf if x > 700 else math.exp(x)
    want = [k1 * vc ** 3 / (ex(k2 * vc / (al * t + be)) - 1) for t in T0]
    m = conc.first(conc.close(orc.val(out["radiance"]), want, rtol=1e-9, atol=1e-300),
                   None if out["unit"] == UNIT else "unit %r" % (out["unit"],),
                   conc.unchanged("T", T0, T))
    if m:
        return m
    ok = T0[(T0 > 60) | np.isnan(T0)]
    if len(ok):
        L = np.array([k1 * vc ** 3 / (ex(k2 * vc / (al * t + be)) - 1) for t in ok])
        m = conc.close(orc.val(conv.radiance2tb(orc.mk(L, case["kind"]))), ok, rtol=1e-9)
        if m:
            return "radiance2tb: " + m
    for kw in ({"lut": {"tb": T, "radiance": T}}, {"normalized": False}, {"lut": {}}):
        try:
            conv.tb2radiance(T, **kw)
            return "%s accepted" % sorted(kw)
        except NotImplementedError:
            pass
    try:
        SeviriRadTbConverter(case["plat"], 3.9)
        return "numeric band accepted"
    except AttributeError:
        pass
