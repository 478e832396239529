"""C08: the emissive part of the 3.x micron band."""
import z3

from dv import conc
from dv.session import Contract
from dv.values import rv
from props import orc
from props.c02 import inv_term
from props.c07 import edge_angle, gen, make_calc, mkargs, prep, spec_np, unmasked
from props.nir import Nir


def emissive(kind, tb, co2=False, twice=False):
    def f(v):
        s = Nir(v)
        args = s.tbs(kind, co2=co2)
        kw = {"tb_ir_co2": args[3]} if co2 else {}
        R = v.must(v.call(s.calc.reflectance_from_tbs, *args[:3], **kw), "reflectance returns")
        if twice:
            v.must(v.call(s.calc.emissive_part_3x, tb=not tb), "first call returns")
        out = v.must(v.call(s.calc.emissive_part_3x, tb=tb), "returns")
        v.ensure_shape("shape preserved", out, args[1].dims)
        i = v.index(args[1])
        el = [a.elem(*i) for a in args]
        r = R.elem(*i)               # what C07/C09 establish about it is not needed here
        refl, miss = r.r, r.nan
        t3, t11 = el[1], el[2]
        # with the table a missing temperature has an arbitrary (unspecified) radiance: no claim there
        ok = z3.Not(z3.Or(t3.nan, t11.nan))
        e = z3.If(miss, s.rad(t3.r), s.rad(t11.r) * (1 - refl))
        if tb:
            v.ensure_el("brightness temperature of the emitted radiance", out.elem(*i),
                        inv_term(s.cw.r * rv("1e-6"), e, True), under=z3.And(ok, e > 0))
        else:
            v.ensure_el("emitted radiance where a reflectance exists", out.elem(*i),
                        s.rad(t11.r) * (1 - refl), under=z3.And(ok, z3.Not(miss)))
            v.ensure_el("measured radiance where no reflectance exists", out.elem(*i), s.rad(t3.r),
                        under=z3.And(ok, miss))
    return f


CONTRACTS = [Contract("emissive radiance[%s%s]" % (k, ",co2" if c else ""), emissive(k, False, c))
             for k in ("numpy", "dask") for c in (False, True)]
CONTRACTS += [Contract("emissive Tb[%s]" % k, emissive(k, True)) for k in ("numpy", "dask")]
CONTRACTS += [Contract("emissive Tb then radiance", emissive("numpy", False, twice=True)),
              Contract("emissive radiance then Tb", emissive("numpy", True, twice=True))]
ASSUMPTIONS = ["as C07; where a brightness temperature input is missing the table radiance is unspecified"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for c in gen(rng, tier, {"quick": 250, "thorough": 250, "search": 1200}[tier]):
        c["dt"] = "f8"
        c["tb"] = rng.random() < 0.5
        c["twice"] = rng.random() < 0.3
        c["co2"] = [rng.uniform(200, 300) for _ in c["t3"]] if rng.random() < 0.3 else None
        c["again"] = rng.random() < 0.3
        yield c


def run_case(case):
    import numpy as np
    calc = make_calc(case)
    sz, t3, t11 = prep(case)
    args = mkargs(case, (sz, t3, t11))
    kind = "numpy" if case["kind"] == "masked" else case["kind"]
    kw = {} if case["lut"] else {"lut": None}
    t13 = None
    if case["co2"]:
        t13 = np.array(case["co2"]).reshape(t3.shape)
        kw["tb_ir_co2"] = orc.mk(t13, kind)
    if case["again"]:
        # an earlier call on other data must not matter
        calc.reflectance_from_tbs(*[orc.mk(a[::-1] + 1, kind) for a in (sz, t3, t11)])
        calc.emissive_part_3x(tb=False)
    calc.reflectance_from_tbs(*args, **kw)
    if case["twice"]:
        calc.emissive_part_3x(tb=not case["tb"])
    got = unmasked(calc.emissive_part_3x(tb=case["tb"]))
    refl, edge, l3, l11, _ = spec_np(case, sz, t3, t11, t13)
    want = np.where(np.isnan(refl), l3, l11 * (1 - refl))
    ok = ~(np.isnan(t3) | np.isnan(t11)) & ~edge & ~edge_angle(case, sz)
    for k in (case.get("mask") or (None,) * 3)[1:]:
        if k is not None:
            ok &= ~np.array(k).reshape(ok.shape)
    if got.shape != want.shape:
        return "shape %s, expected %s" % (got.shape, want.shape)
    # noise of the difference l3 - t11 contribution
    rtol = 1e-6
    if case["tb"]:
        ok &= want > 1e-3 * np.nanmax(np.where(np.isnan(l11), 0, l11)) if want.size else ok
        from props.c03 import orc_inv
        want = np.array([orc_inv(3.76e-6, x, True) if x > 0 else np.nan for x in want.ravel()]).reshape(want.shape)
        rtol = 1e-3
    else:
        scale = np.abs(l3) + np.abs(l11)
        bad = ok & ~(np.abs(got - want) <= 1e-4 * scale)
        return None if not bad.any() else "at %s: got %r, expected %r" % (
            np.argwhere(bad)[0].tolist(), float(got[bad][0]), float(want[bad][0]))
    return conc.close(np.where(ok, got, 0), np.where(ok, want, 0), rtol=rtol)
