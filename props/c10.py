"""C10: in-band solar flux and irradiance."""
import z3

from dv import conc, core, loops, shims
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import El, SArr, SNum, rv, to_real
from props import orc, sym


def spectrum(v, space="wavelength", dlambda=True):
    n = v.dim("ns", lo=4)
    wl = v.increasing(v.arr("swl", (n,), where=lambda r, i: r > 0))
    irr = v.arr("sirr", (n,), where=lambda r, i: r >= 0)
    files = []

    def genfromtxt(fn, **k):
        files.append(fn)
        return (wl, irr) if k.get("unpack") else core_unsup()
    w = mkworld(np_extra={"genfromtxt": genfromtxt})
    mod = w.load("pyspectral.solar")
    kw = {"wavespace": space} if space != "wavelength" else {}
    d = SNum(rv("0.005") if space == "wavelength" else rv(2))        # the documented default resolution
    if dlambda:
        d = v.num("dl", gt=0)
        kw["dlambda"] = d
    obj = v.must(v.call(mod.SolarIrradianceSpectrum, "/spectrum.dat", **kw), "constructor returns")
    v.ensure("the given file is read", [str(f) for f in files] == ["/spectrum.dat"])
    return obj, wl, irr, n, d


def core_unsup():
    raise core.Unsupported("genfromtxt without unpack")


def rsr(v, name, space, form, det=1):
    n = v.dim("n_" + name, lo=4)
    x = v.increasing(v.arr("x_" + name, (n,), where=lambda r, i: r > 0))
    r = v.arr("r_" + name, (n,), where=lambda q, i: q >= 0)
    key = space
    rec = {key: x, "response": r}
    if form == "flat":
        return sym.mkd(rec), x, r, n
    if form == "only":
        return sym.mkd({"det-%d" % det: sym.mkd(rec)}), x, r, n
    o = sym.mkd({key: v.increasing(v.arr("xo_" + name, (n,), where=lambda r, i: r > 0)),
                 "response": v.arr("ro_" + name, (n,))})
    return sym.mkd({"det-%d" % det: sym.mkd(rec), "det-%d" % (3 - det): o}), x, r, n


def spec(v, x, r, n, scale, sx, si, d, flux):
    """Trapezoid over the regular grid of (spline of spectrum) x (spline of response)."""
    xs = sym.earr((n,), lambda j: x.elem(j).r * scale)
    a, b = xs.elem(z3.IntVal(0)).r, xs.elem(n - 1).r
    q = (b - a) / d.r
    k = loops.BUILTINS["int"](loops.BUILTINS["round"](SNum(q))) if "round" in loops.BUILTINS else int(round(SNum(q)))
    m = z3.simplify(k.r + 1)
    grid = sym.earr((m,), lambda j: a + z3.ToReal(j) * (b - a) / z3.ToReal(m - 1))
    S = shims.Spline(sx, si)
    R = shims.Spline(xs, r)
    fr = sym.earr((m,), lambda j: R.F(grid.elem(j).r))
    fs = sym.earr((m,), lambda j: S.F(grid.elem(j).r) * R.F(grid.elem(j).r))
    v.assume(m >= 2)
    F = sym.trz(fs, grid).r
    if flux:
        return F
    W = sym.trz(fr, grid).r
    v.assume(W != 0)
    return F / W


def table(wl, irr, n, space):
    if space == "wavelength":
        return wl, irr
    sx = sym.earr((n,), lambda j: 1 / (rv("1e-4") * wl.elem(n - 1 - j).r))
    si = sym.earr((n,), lambda j: irr.elem(n - 1 - j).r * wl.elem(n - 1 - j).r * wl.elem(n - 1 - j).r * rv("0.1"))
    return sx, si


def resample(space, step, ival):
    """interpolate: the spline of the spectrum on the regular grid over the interval (default: the whole spectrum)."""
    def f(v):
        obj, wl, irr, n, d = spectrum(v, space, step == "object")
        sx, si = table(wl, irr, n, space)
        a, b = sx.elem(z3.IntVal(0)).r, sx.elem(n - 1).r
        kw = {}
        if step == "call":
            d = v.num("step", gt=0)
            kw["dlambda"] = d
        if ival:
            x, y = v.num("from", gt=0), v.num("to", gt=0)
            v.assume(x.r < y.r)
            kw["ival_wavelength"] = (x, y)
            a, b = x.r, y.r
        v.must(v.call(obj.interpolate, **kw), "returns")
        k = loops.BUILTINS["int"](loops.BUILTINS["round"](SNum((b - a) / d.r))) if "round" in loops.BUILTINS else int(round(SNum((b - a) / d.r)))
        m = z3.simplify(k.r + 1)
        v.assume(m >= 2)
        X, Y = obj.ipol_wavelength, obj.ipol_irradiance
        v.ensure_shape("grid size", X, (m,))
        v.ensure_shape("one irradiance per grid point", Y, (m,))
        (i,) = v.index(X)
        g = a + z3.ToReal(i) * (b - a) / z3.ToReal(m - 1)
        v.ensure_el("regular grid", X.elem(i), g)
        v.ensure_el("spline of the spectrum", Y.elem(i), shims.Spline(sx, si).F(g))
        v.ensure("frame: spectrum unchanged", wl.version == 0 and irr.version == 0)
    return f


def make(flux, space, form, det=1, scale=False, history=False, step=True):
    def f(v):
        obj, wl, irr, n, d = spectrum(v, space, step)
        sx, si = table(wl, irr, n, space)
        meth = obj.inband_solarflux if flux else obj.inband_solarirradiance
        if history:
            r0, *_ = rsr(v, "prev", space, "flat")
            v.must(v.call(obj.inband_solarflux, r0), "earlier call returns")
            v.must(v.call(obj.inband_solarirradiance, r0), "earlier call returns")
        R, x, r, m = rsr(v, "b", space, form, det)
        kw = {"detector": det} if form in ("dets", "only") and det != 1 else {}
        sc = rv(1)
        if scale:
            q = v.num("scale", gt=0)
            kw["scale"], sc = q, q.r
        out = v.must(v.call(meth, R, **kw), "returns")
        want = spec(v, x, r, m, sc, sx, si, d, flux)
        v.ensure_el("in-band %s" % ("flux" if flux else "irradiance"), out, want)
        v.ensure("frame: response and spectrum unchanged", all(a.version == 0 for a in (x, r, wl, irr)))
    return f


CONTRACTS = [Contract("%s[%s,%s%s%s%s]" % ("flux" if a[0] else "irradiance", a[1], a[2],
                                         ",det-2" if len(a) > 3 and a[3] == 2 else "",
                                         ",scaled" if len(a) > 4 and a[4] else "", ",after other calls" if len(a) > 5 else ""),
                      make(*a)) for a in
             [(fl, sp) + form for fl in (True, False) for sp in ("wavelength", "wavenumber")
              for form in (("flat",), ("dets",), ("dets", 2), ("only", 2))] +
             [(fl, sp) + rest for fl, sp in ((True, "wavelength"), (False, "wavenumber"))
              for rest in (("flat", 1, True), ("dets", 2, True), ("flat", 1, False, True), ("dets", 2, False, True))]]
CONTRACTS += [Contract("%s[%s,default resolution]" % ("flux" if fl else "irradiance", sp), make(fl, sp, "flat", step=False))
              for fl, sp in ((True, "wavelength"), (False, "wavelength"), (True, "wavenumber"))]
CONTRACTS += [Contract("interpolate[%s,%s resolution,%s]" % (sp, st, "interval" if iv else "whole spectrum"), resample(sp, st, iv))
              for sp in ("wavelength", "wavenumber") for st, iv in (("object", False), ("default", False), ("call", True), ("call", False))]
ASSUMPTIONS = ["scipy's interpolating spline is a function of its nodes and the evaluation point (uninterpreted)",
               "at least two grid points in the band; numpy.genfromtxt returns the file's columns"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 1000, "thorough": 1500, "search": 3000}[tier]):
        n = rng.randint(5, 30)
        c = rng.uniform(0.5, 3.5)
        wn = rng.random() < 0.3
        h = rng.choice([0.2, 0.2, 0.2, 0.02, 0.005])
        wl = orc.grid(rng, c - h, c + h, n)
        yield dict(space="wavenumber" if wn else "wavelength", wl=wl, resp=orc.response(rng, n),
                   d=(rng.choice([None, 0.005, 0.0005, 0.002]) if h == 0.2 else rng.choice([h / 20, 4e-5, h / 200, h, h / 3])) if not wn else
                   rng.choice([None, 2.0, 5.0]) if h == 0.2 else (1e4 / wl[0] - 1e4 / wl[-1]) / rng.choice([2, 7, 20, 100, 400]),
                   ipol=rng.random() < 0.2, ival=rng.random() < 0.5, step=rng.choice([None, h / 50 if not wn else 15 * h]),
                   flux=rng.random() < 0.5, form=rng.choice(["flat", "det1", "det2", "only2"]), amp=rng.uniform(0.5, 2),
                   scale=rng.choice([None, None, 1.01]), hist=rng.random() < 0.4, default=rng.random() < 0.3,
                   ns=rng.randint(60, 200))


def run_case(case):
    import os
    import numpy as np
    from scipy.interpolate import InterpolatedUnivariateSpline as S
    orc.configure()
    from pyspectral.solar import TOTAL_IRRADIANCE_SPECTRUM_2000ASTM, SolarIrradianceSpectrum
    with conc.scratchdir() as d:
        if case["default"]:
            fn = TOTAL_IRRADIANCE_SPECTRUM_2000ASTM
        else:
            fn = os.path.join(d, "s.dat")
            sw = np.linspace(0.2, 4.5, case["ns"])
            np.savetxt(fn, np.column_stack([sw, 1500 * np.exp(-sw) * (1.2 + np.sin(7 * sw))]))
        kw = {} if case["d"] is None else {"dlambda": case["d"]}
        if case["space"] != "wavelength":
            kw["wavespace"] = case["space"]
        sol = SolarIrradianceSpectrum(fn, **kw)
        sw, si = np.loadtxt(fn, unpack=True)
    wn = case["space"] == "wavenumber"
    if wn:
        sx, sy = 1e4 / sw[::-1], (si * sw * sw * 0.1)[::-1]
        x, r = 1e4 / np.array(case["wl"])[::-1], np.array(case["resp"])[::-1].copy()
    else:
        sx, sy = sw, si
        x, r = np.array(case["wl"]), np.array(case["resp"])
    step = case["d"] or (2.0 if wn else 0.005)
    if case["ipol"]:
        kw = {"ival_wavelength": (x[0], x[-1])} if case["ival"] else {}
        if case["step"]:
            kw["dlambda"] = step = case["step"]
        sol.interpolate(**kw)
        a, b = (x[0], x[-1]) if case["ival"] else (sx[0], sx[-1])
        k = int(round((b - a) / step)) + 1
        g = np.array([a + j * (b - a) / (k - 1) for j in range(k)])
        return conc.first(conc.close(sol.ipol_wavelength, g, rtol=1e-9),
                          conc.close(sol.ipol_irradiance, S(sx, sy)(g), rtol=1e-9, atol=1e-9))
    rec = {case["space"]: x.copy(), "response": r.copy()}
    oth = {case["space"]: x + (0.05 if not wn else 30), "response": r[::-1] * 0.5}
    R = rec if case["form"] == "flat" else ({"det-1": rec, "det-2": oth} if case["form"] == "det1" else
                                            {"det-1": oth, "det-2": rec})
    if case["form"] == "only2":
        R = {"det-2": rec}
    kw = {"detector": 2} if case["form"] in ("det2", "only2") else {}
    if case["scale"]:
        kw["scale"] = case["scale"]
    if case["hist"]:
        sol.inband_solarflux(oth)
        sol.inband_solarirradiance(oth)
    got = (sol.inband_solarflux if case["flux"] else sol.inband_solarirradiance)(R, **kw)
    xs = x * (case["scale"] or 1.0)
    k = int(round((xs[-1] - xs[0]) / step)) + 1
    g = np.array([xs[0] + j * (xs[-1] - xs[0]) / (k - 1) for j in range(k)])
    rr, ss = S(xs, r)(g), S(sx, sy)(g)
    want = orc.trapz(rr * ss, g)
    if not case["flux"]:
        want /= orc.trapz(rr, g)
    return conc.first(conc.close(got, want, rtol=1e-9), conc.unchanged("response", r, rec["response"]),
                      conc.unchanged("wavelengths", x, rec[case["space"]]))
