"""C12: conversion of spectral responses to wavenumber space."""
import z3

from dv import conc, core, loops
from dv.ioshims import mkworld
from dv.loops import SDict, VDict
from dv.session import Contract
from dv.values import STR, El, SArr, SNum, SStr, rv
from props import orc, sym

B = z3.Function("c12:band", STR, z3.BoolSort())
D = z3.Function("c12:det", STR, STR, z3.BoolSort())
N = z3.Function("c12:n", STR, STR, z3.IntSort())
WL = z3.Function("c12:wl", STR, STR, z3.IntSort(), z3.RealSort())
RS = z3.Function("c12:rs", STR, STR, z3.IntSort(), z3.RealSort())
CW = z3.Function("c12:cw", STR, STR, z3.RealSort())


def record(v, b, d, order, extra=None):
    c = v.c
    c.fact(N(b, d) >= 1)
    wl = SArr((N(b, d),), lambda i: El(WL(b, d, i)), "f8", "numpy")
    rs = SArr((N(b, d),), lambda i: El(RS(b, d, i)), "f8", "numpy")
    wl.add_hook(lambda idx, e: c.fact(z3.Implies(wl.inrange(idx), e.r > 0)))
    items = {"wavelength": wl, "response": rs, "central_wavelength": SNum(CW(b, d))}
    return sym.mkd({k: items[k] for k in order})


def vers(r):
    return [getattr(r, "version", 0)] + [x.version for x in dict.values(r) if isinstance(x, SArr)]


ORDERS = (("wavelength", "response", "central_wavelength"), ("response", "central_wavelength", "wavelength"))


def unbounded(order):
    """Any number of bands, any number of detectors per band, any number of samples."""
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.utils")
        made = []

        def rec(b, d):
            r = record(v, b, d, order)
            made.append((r, vers(r)))
            return r
        rsr = SDict("rsr", lambda b: B(b), lambda b: SDict("band", lambda d: D(b, d), lambda d: rec(b, d)))
        out = v.must(v.call(mod.convert2wavenumber, rsr), "returns")
        res, info = out
        v.ensure("unit", str(info["unit"]) == "cm-1")
        v.ensure_el("SI scale", SNum(rv(1)) * info["si_scale"], rv(100))
        b0, d0 = z3.Const("b0", STR), z3.Const("d0", STR)
        v.c.inputs["b0"], v.c.inputs["d0"] = ("str", b0), ("str", d0)
        loops.note_key([b0])
        loops.note_key([d0])
        inb = SStr.atom(b0) in res
        v.ensure("exactly the given bands", z3.BoolVal(bool(inb)) == B(b0))
        if not inb:
            return
        band = res[SStr.atom(b0)]
        ind = SStr.atom(d0) in band
        v.ensure("exactly the given detectors", z3.BoolVal(bool(ind)) == D(b0, d0))
        if not ind:
            return
        det = band[SStr.atom(d0)]
        n = N(b0, d0)
        v.c.fact(n >= 1)
        wn, rs = det["wavenumber"], det["response"]
        v.ensure("no wavelengths left", "wavelength" not in det)
        v.ensure_shape("same number of samples", wn, (n,))
        v.ensure_shape("same number of responses", rs, (n,))
        (i,) = v.index(wn)
        v.c.fact(WL(b0, d0, n - 1 - i) > 0)
        v.ensure_el("wavenumber of the sample", wn.elem(i), 1 / (rv("1e-4") * WL(b0, d0, n - 1 - i)))
        v.ensure_el("response of the same sample", rs.elem(i), RS(b0, d0, n - 1 - i))
        (j,) = v.index(wn, "j")
        v.assume(i < j)
        p, q = WL(b0, d0, n - 1 - i), WL(b0, d0, n - 1 - j)
        v.assume(z3.And(p > q, q > 0))  # wavelengths strictly increasing
        v.ensure("increasing wavenumbers", z3.simplify(wn.elem(i).r) < wn.elem(j).r)
        v.ensure("frame: source unchanged", all(vers(r) == k for r, k in made))
    return f


def fixed(v, layout, tag=""):
    """Reader layouts: {band: number of detectors}, any number of samples and values."""
    rsr, data = {}, {}
    for b, nd in layout.items():
        rsr[b] = {}
        for k in range(nd):
            d = "det-%d" % (k + 1)
            rec, wl, rs, cw = sym.band(v, "%s%s%s" % (tag, b, d))
            rsr[b][d] = rec
            data[b, d] = (wl, rs, cw)
    return sym.mkd({b: sym.mkd(x) for b, x in rsr.items()}), data


def already(layout):
    """Detectors that are in wavenumber space already are passed on unchanged."""
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.utils")
        rsr, data = fixed(v, layout)
        b0 = next(iter(layout))
        n = v.dim("m", lo=1)
        wn, rs = v.arr("wn", (n,), where=lambda r, i: r > 0), v.arr("rsn", (n,))
        rsr[b0]["det-1"] = sym.mkd({"wavenumber": wn, "response": rs})
        res, info = v.must(v.call(mod.convert2wavenumber, rsr), "returns")
        v.ensure("every band and detector kept", {b: sorted(dict.keys(res[b])) for b in dict.keys(res)} ==
                 {b: ["det-%d" % (k + 1) for k in range(nd)] for b, nd in layout.items()})
        rec = res[b0]["det-1"]
        v.ensure("a copy: changing the result leaves the source alone", rec is not rsr[b0]["det-1"])
        for nm, src in (("wavenumber", wn), ("response", rs)):
            v.ensure_shape("%s: same samples" % nm, rec[nm], (n,))
            (i,) = v.index(src, nm)
            v.ensure_el("%s kept" % nm, rec[nm].elem(i), src.elem(i).r)
        for (b, d), (wl, r, cw) in data.items():
            if (b, d) == (b0, "det-1"):
                continue
            (i,) = v.index(wl, b + d)
            last = wl.dims[0] - 1
            v.ensure_el("other detectors converted", res[b][d]["wavenumber"].elem(i),
                        1 / (rv("1e-4") * wl.elem(last - i).r))
            v.ensure_el("other responses paired", res[b][d]["response"].elem(i), r.elem(last - i).r)
    return f


def named(v):
    """Several named responses on one wavelength grid."""
    w = mkworld()
    mod = w.load("pyspectral.utils")
    n = v.dim("n", lo=1)
    wl = v.arr("wl", (n,), where=lambda r, i: r > 0)
    rs = {k: v.arr("rs_" + k, (n,)) for k in ("a", "b")}
    resp = sym.mkd(rs)
    order = v.c.decide(z3.Bool("in:response first"))
    rec = {"response": resp, "wavelength": wl} if order else {"wavelength": wl, "response": resp}
    res, info = v.must(v.call(mod.convert2wavenumber, sym.mkd({"ch1": sym.mkd({"det-1": sym.mkd(rec)})})), "returns")
    out = res["ch1"]["det-1"]
    v.ensure("every named response", sorted(dict.keys(out["response"])) == ["a", "b"])
    (i,) = v.index(wl)
    v.ensure_el("wavenumber of the sample", out["wavenumber"].elem(i), 1 / (rv("1e-4") * wl.elem(n - 1 - i).r))
    for k in rs:
        v.ensure_shape("same number of responses", out["response"][k], (n,))
        v.ensure_el("response %s of the same sample" % k, out["response"][k].elem(i), rs[k].elem(n - 1 - i).r)
        v.ensure("frame: source unchanged", resp[k] is rs[k] and rs[k].version == 0)


def reader(layout):
    """RelativeSpectralResponse.convert on a loaded object; second conversion refused, data unchanged by it."""
    def f(v):
        rsr, data = fixed(v, layout)
        info = sym.mkd({"platform_name": "Plat", "instrument": "inst", "band_names": loops.HOOKS.mklist(list(layout)),
                        "description": "d", "rsr": rsr})
        w = mkworld(overrides={"pyspectral.config": {"get_config": lambda: sym.mkd({"rsr_dir": "/rsr"})}})
        mod = w.load("pyspectral.rsr_reader")
        mod._load_rsr_info_from_file = lambda fn: info
        obj = v.must(v.call(mod.RelativeSpectralResponse, filename="/some/file.h5"), "constructor returns")
        v.must(v.call(obj.convert), "conversion returns")

        def check(tag):
            v.ensure(tag + "unit", str(obj.unit) == "cm-1")
            v.ensure_el(tag + "SI scale", SNum(rv(1)) * obj.si_scale, rv(100))
            v.ensure(tag + "same bands", sorted(dict.keys(obj.rsr)) == sorted(layout))
            for (b, d), (wl, r, cw) in data.items():
                v.ensure(tag + "same detectors", sorted(dict.keys(obj.rsr[b])) == ["det-%d" % (k + 1) for k in
                                                                                    range(layout[b])])
                rec = obj.rsr[b][d]
                v.ensure(tag + "no wavelengths left", "wavelength" not in rec)
                n = wl.dims[0]
                x, y = rec["wavenumber"], rec["response"]
                v.ensure_shape(tag + "samples", x, (n,))
                v.ensure_shape(tag + "responses", y, (n,))
                (i,) = v.index(wl, b + d)
                v.ensure_el(tag + "wavenumber", x.elem(i), 1 / (rv("1e-4") * wl.elem(n - 1 - i).r))
                v.ensure_el(tag + "response", y.elem(i), r.elem(n - 1 - i).r)
                X = sym.earr((n,), lambda j: 1 / (rv("1e-4") * wl.elem(n - 1 - j).r))
                R = sym.earr((n,), lambda j: r.elem(n - 1 - j).r)
                XR = sym.earr((n,), lambda j: R.elem(j).r * X.elem(j).r)
                den = sym.trz(R, X).r
                v.assume(den != 0)
                v.ensure_el(tag + "central wavenumber", rec["central_wavenumber"], sym.trz(XR, X).r / den)
                v.ensure("frame: loaded arrays unchanged", wl.version == 0 and r.version == 0)
        check("")
        v.must_raise(v.call(obj.convert), NotImplementedError, "second conversion refused")
        check("after the refusal: ")
    return f


CONTRACTS = [Contract("convert2wavenumber[named responses]", named)] + [Contract("convert2wavenumber[any bands and detectors, %s first]" % o[0], unbounded(o)) for o in ORDERS] + \
    [Contract("convert2wavenumber[wavenumbers passed on,%s]" % "+".join(str(x) for x in l.values()), already(l))
     for l in ({"ch1": 1}, {"ch1": 2, "ch2": 1})] + \
    [Contract("RelativeSpectralResponse.convert[%s]" % "+".join(str(x) for x in l.values()), reader(l))
     for l in ({"ch1": 1}, {"ch1": 2, "ch2": 1}, {"20": 1, "ch2": 3})]
ASSUMPTIONS = ["convert2wavenumber: any number of bands, detectors and samples; RelativeSpectralResponse.convert: one or two "
               "bands of one to three detectors, any number of samples and any values"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 1500, "thorough": 2000, "search": 4000}[tier]):
        bands = {}
        for b in rng.sample(["ch1", "ch2", "M01", "20", "VIS0.6", "band x"], rng.randint(1, 4)):
            dets = []
            for d in range(rng.randint(1, 4)):
                n = rng.choice([1, 2, 3, 7, 30])
                c = rng.uniform(0.4, 12)
                dets.append(dict(wl=orc.grid(rng, c * 0.9, c * 1.1, n), rs=orc.response(rng, n), cw=c,
                                 wn=rng.random() < 0.15, order=rng.randint(0, 1), named=rng.random() < 0.15))
            bands[b] = dets
        yield dict(mode=rng.choice(["util", "reader"]), bands=bands, twice=rng.random() < 0.5,
                   dt=rng.choice(["f4", "f8"]))


def run_case(case):
    import numpy as np
    if case["mode"] == "util":
        from pyspectral.utils import convert2wavenumber
        rsr = {}
        for b, dets in case["bands"].items():
            rsr[b] = {}
            for k, d in enumerate(dets):
                wl, rs = np.array(d["wl"], case["dt"]), np.array(d["rs"], case["dt"])
                if d["named"] and not d["wn"]:
                    rs = {"a": rs, "b": rs * 0.5 + np.arange(len(rs))}
                rec = {"wavenumber" if d["wn"] else "wavelength": wl, "response": rs, "central_wavelength": d["cw"]}
                if d["order"]:
                    rec = dict(reversed(list(rec.items())))
                rsr[b]["det-%d" % (k + 1)] = rec
        import copy
        before = copy.deepcopy(rsr)
        out, info = convert2wavenumber(rsr)
        if info.get("unit") != "cm-1" or info.get("si_scale") != 100:
            return "info %r" % (info,)
        if set(out) != set(rsr):
            return "bands %r" % sorted(out)
        for b in rsr:
            if set(out[b]) != set(rsr[b]):
                return "detectors of %s: %r" % (b, sorted(out[b]))
            for d, rec in rsr[b].items():
                o = out[b][d]
                if o is rec:
                    return "the result shares the record of %s %s with the source" % (b, d)
                if set(rec) != set(before[b][d]) or not all(np.array_equal(rec[q], before[b][d][q]) for q in rec
                                                            if not isinstance(rec[q], dict)):
                    return "source modified"
                if isinstance(rec["response"], dict):
                    if set(o["response"]) != {"a", "b"}:
                        return "named responses %r" % sorted(o["response"])
                    for q in ("a", "b"):
                        e = conc.first(conc.close(o["response"][q], before[b][d]["response"][q][::-1]),
                                       conc.unchanged("response", before[b][d]["response"][q], rec["response"][q]))
                        if e:
                            return "%s %s %s: %s" % (b, d, q, e)
                    rec, o = dict(rec, response=rec["response"]["a"]), dict(o, response=o["response"]["a"])
                if "wavenumber" in rec:
                    e = conc.first(conc.close(o["wavenumber"], rec["wavenumber"]), conc.close(o["response"],
                                                                                              rec["response"]))
                else:
                    if "wavelength" in o:
                        return "wavelengths left in %s %s" % (b, d)
                    e = conc.first(conc.close(o["wavenumber"], 1e4 / rec["wavelength"].astype("f8")[::-1], rtol=1e-5 if case["dt"] == "f4" else 1e-12),
                                   conc.close(o["response"], rec["response"][::-1]))
                if e:
                    return "%s %s: %s" % (b, d, e)
        return None
    bands = {b: [(d["wl"], d["rs"], d["cw"]) for d in dets if len(d["wl"]) > 1] for b, dets in case["bands"].items()}
    bands = {b: x for b, x in bands.items() if x}
    if not bands:
        raise conc.Skip()
    with orc.rsr_files({("Plat-1", "instr1"): bands}, dtype=case["dt"]):
        from pyspectral.rsr_reader import RelativeSpectralResponse
        o = RelativeSpectralResponse("Plat-1", "instr1")
        ref = {b: {d: (r["wavelength"].copy(), r["response"].copy()) for d, r in o.rsr[b].items()} for b in bands}
        o.convert()
        if case["twice"]:
            try:
                o.convert()
                return "second conversion did not fail"
            except NotImplementedError:
                pass
        if o.unit != "cm-1" or o.si_scale != 100:
            return "unit %r %r" % (o.unit, o.si_scale)
        if set(o.rsr.keys()) != set(bands):
            return "bands %r" % sorted(o.rsr.keys())
        for b in bands:
            if set(o.rsr[b]) != set(ref[b]):
                return "detectors of %s: %r" % (b, sorted(o.rsr[b]))
            for d, (wl, rs) in ref[b].items():
                r = o.rsr[b][d]
                if "wavelength" in r:
                    return "wavelengths left"
                x = 1e4 / wl.astype("f8")[::-1]
                y = rs.astype("f8")[::-1]
                den = orc.trapz(y, x)
                e = conc.first(conc.close(r["wavenumber"], x, rtol=1e-5), conc.close(r["response"], y),
                               conc.close(r["central_wavenumber"], orc.trapz(x * y, x) / den, rtol=1e-4))
                if e:
                    return "%s %s: %s" % (b, d, e)
    return None
