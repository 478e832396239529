"""C09: CO2 correction of the 3.x micron reflectance, and independence of successive calls."""
import z3

from dv import conc
from dv.session import Contract
from props import orc
from props.c07 import edge_angle, gen, make_calc, mkargs, prep, spec_np, unmasked
from props.nir import Nir


def co2(kind, dt="f8"):
    def f(v):
        s = Nir(v)
        a = s.tbs(kind, dt, co2=True)
        out = v.must(v.call(s.calc.reflectance_from_tbs, *a[:3], tb_ir_co2=a[3]), "returns")
        v.ensure_shape("shape preserved", out, a[1].dims)
        v.ensure("container preserved", out.kind == kind)
        i = v.index(a[1])
        el = [x.elem(*i) for x in a]
        want, miss = s.spec(*el)
        v.ensure_el("corrected reflectance", out.elem(*i), want, miss)
        v.ensure("frame: inputs unchanged", all(x.version == 0 for x in a))
    return f


def missing(kind, dt="f8"):
    """A pixel without a CO2 band temperature cannot be corrected: its reflectance is missing."""
    def f(v):
        s = Nir(v)
        a = s.tbs(kind, dt, co2=True, conan=True)
        out = v.must(v.call(s.calc.reflectance_from_tbs, *a[:3], tb_ir_co2=a[3]), "returns")
        i = v.index(a[1])
        v.ensure("missing where the CO2 band is missing",
                 z3.Implies(a[3].elem(*i).nan, out.elem(*i).num().nan))
    return f


def history(kind, first_co2, emissive):
    """A second call gives what a fresh calculator gives, whatever the first call was."""
    def f(v):
        s = Nir(v)
        dims = (v.dim("fy"), v.dim("fx"))
        first = [v.arr("p%d" % k, dims, kind=kind, nan=True) for k in range(4)]
        kw = {"tb_ir_co2": first[3]} if first_co2 else {}
        v.must(v.call(s.calc.reflectance_from_tbs, *first[:3], **kw), "first call returns")
        if emissive:
            v.must(v.call(s.calc.emissive_part_3x, tb=False), "emissive part returns")
        a = s.tbs(kind)
        out = v.must(v.call(s.calc.reflectance_from_tbs, *a), "returns")
        v.ensure_shape("shape of the second input", out, a[1].dims)
        i = v.index(a[1])
        want, miss = s.spec(*[x.elem(*i) for x in a])
        v.ensure_el("reflectance of a fresh calculator", out.elem(*i), want, miss)
    return f


def method(v):
    s = Nir(v)
    m = v.str("method")
    v.assume(m != "rosenfeld")
    a = v.arr("a", ("n",), where=lambda r, i: r > 100)
    v.must_raise(v.call(s.calc.derive_rad39_corr, a, a, method=m), AttributeError, "other methods rejected")


CONTRACTS = [Contract("co2 correction[%s,%s]" % (k, d), co2(k, d)) for k in ("numpy", "dask") for d in ("f8", "f4")]
CONTRACTS += [Contract("missing co2[%s]" % k, missing(k)) for k in ("numpy", "dask")]
CONTRACTS += [Contract("history[%s,%s,%s]" % (k, c, e), history(k, c, e), max_paths=4000)
              for k in ("numpy", "dask") for c in (True, False) for e in (False, True)]
CONTRACTS += [Contract("unknown method", method)]
ASSUMPTIONS = ["as C07; histories of two calls (the calculator's state after a call is a function of that call, "
               "so longer histories reduce to the last two)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for c in gen(rng, tier, {"quick": 250, "thorough": 250, "search": 1200}[tier]):
        c["dt"] = "f8"
        m = len(c["t3"])
        c["calls"] = [rng.choice(["co2", "plain", "emissive", "emissive_tb"]) for _ in range(rng.randint(0, 3))]
        c["last"] = rng.choice(["co2", "plain"])
        c["t13"] = [None if rng.random() < .1 else rng.uniform(200, 300) for _ in range(m)]
        yield c


def run_case(case):
    import numpy as np
    calc = make_calc(case)
    sz, t3, t11 = prep(case)
    t13 = orc.fromlist(case["t13"], t3.shape, "f8")
    mk = lambda x: orc.mk(x, case["kind"] if case["kind"] != "masked" else "numpy")  # noqa
    had = False
    for c in case["calls"]:
        if c == "co2":
            calc.reflectance_from_tbs(mk(sz[::-1]), mk(t3[::-1]), mk(t11[::-1]), tb_ir_co2=mk(t13 + 3))
            had = True
        elif c == "plain":
            calc.reflectance_from_tbs(mk(sz + 1), mk(t3 + 2), mk(t11 - 1))
            had = True
        elif had:
            calc.emissive_part_3x(tb=c.endswith("tb"))
    kw = {} if case["lut"] else {"lut": None}
    if case["last"] == "co2":
        kw["tb_ir_co2"] = mk(t13)
    got = unmasked(calc.reflectance_from_tbs(*mkargs(case, (sz, t3, t11)), **kw))
    want, edge, *_ = spec_np(case, sz, t3, t11, t13 if case["last"] == "co2" else None)
    if got.shape != want.shape:
        return "shape %s, expected %s" % (got.shape, want.shape)
    edge = edge | edge_angle(case, sz)
    m = conc.close(np.where(edge, 0, got), np.where(edge, 0, want), rtol=1e-9, atol=1e-11)
    if m:
        return "after %s, %s: %s" % (case["calls"], case["last"], m)
    try:
        calc.derive_rad39_corr(t11, t13, method="other")
        return "unknown correction method accepted"
    except AttributeError:
        pass
