"""C15: sort_data."""
import math

import z3

from dv import conc, core
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import dimz, to_real
from props import orc


def run(v, dt):
    w = mkworld()
    mod = w.load("pyspectral.utils")
    n = v.dim("n", lo=1)
    x, y = v.arr("x", (n,), dt=dt), v.arr("y", (n,), dt=dt)
    out = v.must(v.call(mod.sort_data, x, y), "returns")
    xs, ys = out
    return n, x, y, xs, ys


def ordered(dt):
    def f(v):
        n, x, y, xs, ys = run(v, dt)
        m = dimz(xs.dims[0])
        v.ensure_shape("one value per position", ys, xs.dims)
        v.ensure("not more than given", m <= dimz(n))
        v.ensure_dtype("precision kept", xs, x.dt)
        v.ensure_dtype("precision kept (values)", ys, y.dt)
        (i,) = v.index(xs)
        (j,) = v.index(xs, "j")
        xi, yi, xj = xs.elem(i).r, ys.elem(i).r, xs.elem(j).r
        idx = [t[0] for t, _ in list(x._memo.values())]
        v.ensure("a pair of the input", z3.Or(*[z3.And(k >= 0, k < dimz(n), x.elem(k).r == xi, y.elem(k).r == yi)
                                                for k in idx]), exists=True)
        v.assume(i < j)
        v.ensure("strictly increasing", xi < xj)
        v.ensure("frame: inputs unchanged", x.version == 0 and y.version == 0)
    return f


def complete(dt):
    def f(v):
        n, x, y, xs, ys = run(v, dt)
        c = v.c
        perm = getattr(c, "last_perm", None)
        if perm is None:
            raise core.Unsupported("no sorting permutation")
        nz = dimz(n)
        k0 = z3.Int("idx:k0")
        c.inputs["idx:k0"] = ("int", k0)
        v.assume(z3.And(k0 >= 0, k0 < nz))
        s = perm.surj(k0)
        sx = lambda t: x.elem(perm.elem(t).r).r
        # well-ordering: among the sorted samples at the position of sample k0 there is a first one
        g = z3.Int("first")
        c.fact(z3.And(g >= 0, g <= s, sx(g) == sx(s), z3.Or(g == 0, sx(g - 1) != sx(g))))
        cand = []
        for key, ent in c.__dict__.get("comp_tab", {}).items():
            if key[1] == c.npaths:
                cand.append(ent.covers(g))
        if not cand:
            cand = [g]
        m = dimz(xs.dims[0])
        v.ensure("every input position is present", z3.Or(*[z3.And(r >= 0, r < m, xs.elem(r).r == x.elem(k0).r)
                                                            for r in cand]), exists=True)
    return f


CONTRACTS = [Contract("sorted pairs of the input[%s]" % d, ordered(d)) for d in ("f8", "f4", "i8")] + \
    [Contract("nothing lost[%s]" % d, complete(d)) for d in ("f8", "f4", "i8")]
ASSUMPTIONS = ["numpy.argsort returns a permutation that sorts (ties in any order); no NaN and at least one sample"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 15000, "thorough": 20000, "search": 20000}[tier]):
        n = rng.choice([1, 2, 3, 4, 6, 10, 40, 400])
        pool = [rng.uniform(-5, 15) for _ in range(max(1, int(n * rng.choice([0.3, 0.7, 1.0]))))]
        x = [rng.choice(pool) for _ in range(n)] if rng.random() < 0.6 else [rng.uniform(0, 10) for _ in range(n)]
        o = rng.random()
        if o < 0.2:
            x.sort()
        elif o < 0.35:
            x.sort(reverse=True)
        f = rng.choice([1.0, 1.0, 1e-6, 1e-9, 1e4])
        x = [v * f for v in x]
        if rng.random() < 0.3 and n > 2:
            x[0] = math.nextafter(x[-1], rng.choice([-1e9, 1e9]))
        yield dict(x=x, y=[rng.uniform(0, 1) for _ in range(n)], dt=rng.choice(["f8", "f8", "f4"]))


def run_case(case):
    import numpy as np
    from pyspectral.utils import sort_data
    x, y = np.array(case["x"], case["dt"]), np.array(case["y"], case["dt"])
    xb, yb = x.copy(), y.copy()
    xs, ys = sort_data(x, y)
    e = conc.first(conc.unchanged("x", xb, x), conc.unchanged("y", yb, y))
    if e:
        return e
    if xs.shape != ys.shape or xs.ndim != 1:
        return "shapes %r %r" % (xs.shape, ys.shape)
    if xs.dtype != x.dtype or ys.dtype != y.dtype:
        return "precision changed: %s %s" % (xs.dtype, ys.dtype)
    if xs.tolist() != sorted(set(x.tolist())):
        return "positions %r, expected %r" % (xs.tolist()[:20], sorted(set(x.tolist()))[:20])
    pairs = set(zip(x.tolist(), y.tolist()))
    for p in zip(xs.tolist(), ys.tolist()):
        if p not in pairs:
            return "pair %r not in the input" % (p,)
