"""C29: band width measures (full width at half maximum, wave range, energy bounds)."""
import z3

from dv import conc, core, shims
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import SNum, rv, to_real
from props import sym


def utils():
    return mkworld().load("pyspectral.utils")


def outermost(v, n, reach, which):
    """A response whose samples reaching the threshold have outermost indices i0 <= i1 (or none reaches it)."""
    i0, i1 = v.index((n, n), "outer")
    if which == "none":
        where = lambda r, i: z3.Not(reach(r))
    else:
        v.assume(i0 < i1 if which == "several" else i0 == i1)
        where = lambda r, i: z3.And(z3.Implies(i[0] < i0, z3.Not(reach(r))), z3.Implies(i[0] > i1, z3.Not(reach(r))),
                                    z3.Implies(z3.Or(i[0] == i0, i[0] == i1), reach(r)))
    return i0, i1, v.arr("response", (n,), where=where)


def fwhm(which):
    def f(v):
        mod = utils()
        n = v.dim("n", lo=1)
        i0, i1, rsp = outermost(v, n, lambda r: r >= rv("0.5"), which)
        wvl = v.arr("wavelength", (n,))
        rsp.elem(i0), rsp.elem(i1)
        out = v.call(mod.get_fullwidth_halfmax, rsp, wvl)
        v.instantiate(i0, i1)
        if which == "several":
            res = v.must(out, "returns")
            v.ensure_el("width", res, wvl.elem(i1).r - wvl.elem(i0).r, core.FALSE)
        else:
            v.must_raise(out, ValueError, "fewer than two samples")
        v.ensure("frame", rsp.version == 0 and wvl.version == 0)
    return f


def wave_range(single, default):
    def f(v):
        mod = utils()
        n = v.dim("n", lo=1)
        t = SNum(rv("0.15"), core.FALSE, None, "float") if default else v.num("threshold")
        i0, i1, rsp = outermost(v, n, lambda r: r > t.r, "one" if single else "several")
        wvl = v.arr("wavelength", (n,))
        rsp.elem(i0), rsp.elem(i1)
        chan = {"wavelength": wvl, "response": rsp, "central_wavelength": v.num("stored")}
        den = sym.trz(rsp, wvl).r
        v.assume(den != 0)
        out = v.call(mod.get_wave_range, chan, *([] if default else [t]))
        v.instantiate(i0, i1)
        res = v.must(out, "returns")
        v.ensure("three values", isinstance(res, list) and len(res) == 3)
        v.ensure_el("smallest", res[0], wvl.elem(i0).r, core.FALSE)
        num = sym.trz(sym.earr((n,), lambda j: rsp.elem(j).r * wvl.elem(j).r), wvl).r
        v.ensure_el("central wavelength", res[1], num / den, core.FALSE)
        v.ensure_el("largest", res[2], wvl.elem(i1).r, core.FALSE)
        v.ensure("frame", rsp.version == 0 and wvl.version == 0 and chan["wavelength"] is wvl and chan["response"] is rsp)
    return f


def energy(default):
    def f(v):
        mod = utils()
        n = v.dim("n", lo=1)
        rsp = v.arr("response", (n,), where=lambda r, i: r >= 0)
        wvl = v.arr("wavelength", (n,))
        lim = SNum(rv(1), core.FALSE, None, "int") if default else v.num("limit")
        S = shims.f_cumsum(rsp)
        at = lambda i: to_real(S.elem(i).r)
        total = at(n - 1)
        v.assume(total > 0)
        a, b = v.index((n, n), "bound")
        share = lambda i: at(i) / total * 100
        l = to_real(lim.r)
        # a: first sample reaching the limit; b: last one not exceeding the complement
        v.assume(z3.And(share(a) >= l, z3.Implies(a > 0, share(a - 1) < l)))
        v.assume(z3.And(share(b) <= 100 - l, z3.Implies(b < n - 1, share(b + 1) > 100 - l)))
        out = v.call(mod.get_bounds_integrated_energy, rsp, wvl, *([] if default else [lim]))
        v.instantiate(a, b)
        res = v.must(out, "returns")
        v.ensure("two values", isinstance(res, tuple) and len(res) == 2)
        v.ensure_el("lower bound", res[0], wvl.elem(a).r, core.FALSE)
        v.ensure_el("upper bound", res[1], wvl.elem(b).r, core.FALSE)
        v.ensure("frame", rsp.version == 0 and wvl.version == 0)
    return f


CONTRACTS = [Contract("get_fullwidth_halfmax[%s reach it]" % w, fwhm(w)) for w in ("several", "one", "none")] + \
    [Contract("get_wave_range[%s%s]" % (s, d), wave_range(s == "one sample", d == ""))
     for s in ("several samples", "one sample") for d in (", threshold given", "")] + \
    [Contract("get_bounds_integrated_energy[limit given]", energy(False)), Contract("get_bounds_integrated_energy[default]", energy(True))]
ASSUMPTIONS = ["numpy.cumsum: running sums, monotone for non-negative summands", "numpy.nonzero: the increasing enumeration of the true indices",
               "energy bounds: responses are non-negative with a positive sum, and both bounds exist",
               "half maximum: responses are normalised to peak one, as stored in the response files"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 20000, "thorough": 30000, "search": 30000}[tier]):
        n = rng.choice([1, 2, 3, 5, 12, 40])
        r = [rng.choice([0.0, 0.5, 1.0, 0.15, rng.random(), rng.random(), 0.49999999, 0.500000001, rng.random() * 0.3]) for _ in range(n)]
        if rng.random() < 0.3:  # several lobes and a hole
            r = [x if rng.random() < 0.5 else 0.0 for x in r]
        w = sorted(rng.uniform(0.4, 13) for _ in range(n))
        yield dict(fn=rng.choice(["fwhm", "range", "energy"]), r=r, w=w[::-1] if rng.random() < 0.3 else w, dt=rng.choice(["f8", "f8", "f4"]),
                   lim=rng.choice([None, 0.15, 0.5, 0.0, rng.random(), 0.9]), pct=rng.choice([None, 1, 10, 0.0, 25.0, rng.uniform(0, 60), 50]))


def run_case(case):
    import numpy as np
    from pyspectral import utils as u
    from props import orc
    r, w = np.array(case["r"], case["dt"]), np.array(case["w"], case["dt"])
    r0, w0 = r.copy(), w.copy()
    if case["fn"] == "fwhm":
        idx = [i for i in range(len(r)) if r[i] >= 0.5]
        try:
            got = u.get_fullwidth_halfmax(r, w)
        except ValueError:
            got = None
        if (got is None) != (len(idx) < 2):
            return "%s with %d samples reaching one half" % ("refused" if got is None else "not refused", len(idx))
        if got is not None and got != w0[idx[-1]] - w0[idx[0]]:
            return "width %r, expected %r" % (got, w0[idx[-1]] - w0[idx[0]])
    elif case["fn"] == "range":
        t = 0.15 if case["lim"] is None else case["lim"]
        idx = [i for i in range(len(r)) if r[i] > t]
        den = orc.trapz(r.astype("f8"), w.astype("f8"))
        if not idx or abs(den) < 1e-6:
            raise conc.Skip("no sample")
        got = u.get_wave_range(dict(wavelength=w, response=r), *([] if case["lim"] is None else [t]))
        if len(got) != 3 or got[0] != w0[idx[0]] or got[2] != w0[idx[-1]]:
            return "range %r, expected %r .. %r" % (got, w0[idx[0]], w0[idx[-1]])
        e = conc.close(got[1], orc.trapz(r.astype("f8") * w, w.astype("f8")) / den, rtol=1e-8 if case["dt"] == "f8" else 1e-3)
        if e:
            return e
    else:
        lim = 1 if case["pct"] is None else case["pct"]
        c = np.cumsum(r0)
        if not c[-1] > 0:
            raise conc.Skip("edge")
        c = c.astype("f8") / float(c[-1]) * 100
        eps = 1e-9 if case["dt"] == "f8" else 1e-3
        # a sample within rounding of the limit may count or not
        lo = [[i for i in range(len(c)) if c[i] >= lim + t] for t in (-eps, 0, eps)]
        hi = [[i for i in range(len(c)) if c[i] <= 100 - lim + t] for t in (-eps, 0, eps)]
        if not all(lo) or not all(hi):
            if lo[0] and hi[2] and lim == 0:
                lo, hi = [q for q in lo if q], [q for q in hi if q]
            else:
                raise conc.Skip("edge")
        got = u.get_bounds_integrated_energy(r, w, *([] if case["pct"] is None else [lim]))
        if len(got) != 2 or got[0] not in [w0[q[0]] for q in lo] or got[1] not in [w0[q[-1]] for q in hi]:
            return "bounds %r, expected %r" % (got, (w0[lo[-1][0]], w0[hi[0][-1]]))
    return conc.unchanged("response", r0, r) or conc.unchanged("wavelength", w0, w)
