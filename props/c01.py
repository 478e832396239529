"""C01: the Planck law."""
import z3

from dv import conc, prover
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import rv, to_real
from fractions import Fraction

from props import orc

H, K, C = Fraction("6.62606957e-34"), Fraction("1.3806488e-23"), Fraction("2.99792458e8")


def planck_term(wave, T, wavelength):
    c1, c2 = rv(H * C / K), rv(2 * H * C * C)
    if wavelength:
        return c2 / (wave * wave * wave * wave * wave) / (prover.EXP(c1 / wave * (1 / T)) - 1)
    return c2 * wave * wave * wave / (prover.EXP(c1 * wave * (1 / T)) - 1)


def make(fname, wavelength, kind, dt="f8", kw=()):
    def f(v):
        w = mkworld()
        bb = w.load("pyspectral.blackbody")
        wl = v.arr("wave", ("nw",), dt="f8", where=lambda r, i: r > 0)
        T = v.arr("T", ("nt",), dt=dt, kind=kind, nan=dt[0] == "f")
        out = v.must(v.call(getattr(bb, fname), wl, T, **dict(kw)), "returns")
        v.ensure_shape("shape is (n_T, n_wave)", out, (T.dims[0], wl.dims[0]))
        i, j = v.index(out)
        t, x = T.elem(i), wl.elem(j)
        eps = rv(Fraction(1, 10**6))
        nan = z3.Or(t.nan, z3.And(t.r <= eps, t.r >= -eps))
        v.ensure_el("Planck law", out.elem(i, j), planck_term(x.r, to_real(t.r), wavelength), nan)
        for n, a in (("wave", wl), ("T", T)):
            v.ensure("frame: %s unchanged" % n, a.version == 0)
    return f


CONTRACTS = [
    Contract("blackbody[numpy]", make("blackbody", True, "numpy")),
    Contract("blackbody[dask]", make("blackbody", True, "dask")),
    Contract("blackbody_wn[numpy]", make("blackbody_wn", False, "numpy")),
    Contract("blackbody_wn[dask]", make("blackbody_wn", False, "dask")),
    Contract("blackbody[single precision]", make("blackbody", True, "numpy", "f4")),
    Contract("blackbody_wn[single precision]", make("blackbody_wn", False, "numpy", "f4")),
    Contract("blackbody[whole temperatures]", make("blackbody", True, "numpy", "i8")),
    Contract("blackbody_wn[whole temperatures]", make("blackbody_wn", False, "numpy", "i8")),
    Contract("planck[default]", make("planck", True, "numpy")),
    Contract("planck[wavelength]", make("planck", True, "numpy", kw={"wavelength": True})),
    Contract("planck[wavenumber]", make("planck", False, "numpy", kw={"wavelength": False})),
]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    n = {"quick": 1500, "thorough": 2000, "search": 4000}[tier]
    for k in range(n):
        wl = rng.random() < 0.5
        nw, nt = rng.randint(1, 5), rng.randint(1, 6)
        waves = [conc.logu(rng, 0.3e-6, 50e-6) for _ in range(nw)]
        if not wl:
            waves = [1.0 / w for w in waves]
        T = [rng.choice([rng.uniform(150, 400), rng.uniform(1, 10000), 0.0, 1e-7, 2e-6, None, rng.uniform(3, 20),
                         rng.uniform(180, 330), 1e-6, -1e-7, rng.uniform(-400, -1)]) for _ in range(nt)]
        shape = rng.choice([None, [nt, 1], [1, nt]])
        yield dict(wl=wl, waves=waves, T=T, kind=rng.choice(["numpy", "numpy", "dask", "scalar", "list"]), shape=shape,
                   dt=rng.choice(["f8", "f8", "i8", "f4"]), via=rng.choice(["named", "named", "planck", "keyword"]))


def model_cases(name, m):
    wl = "_wn" not in name and "wavenumber" not in name
    T = [e[1] for e in m["T"]["elems"]] or [300.0]
    W = [e[1] for e in m["wave"]["elems"] if e[1]] or [1e-5]
    kind = "dask" if "dask" in name else "numpy"
    yield dict(wl=wl, waves=W, T=T, kind=kind, shape=None)
    for s in (1e-6, 1e-5, 1e-4) if wl else (1e5, 1e4):
        yield dict(wl=wl, waves=[s], T=T, kind=kind, shape=None)


def run_case(case):
    import numpy as np
    from functools import partial
    from pyspectral.blackbody import blackbody, blackbody_wn, planck
    f = blackbody if case["wl"] else blackbody_wn
    via = case.get("via")
    if via == "keyword" or via == "planck" and not case["wl"]:
        f = partial(planck, wavelength=case["wl"])
    elif via == "planck":
        f = planck
    T = orc.fromlist(case["T"])
    dt = case.get("dt", "f8")
    if dt != "f8" and case["kind"] in ("numpy", "dask"):
        T = T.astype(dt) if dt == "f4" else np.where(np.isnan(T), 0, np.round(T)).astype(dt)
    w = np.array(case["waves"], dtype=float)
    w0, T0 = w.copy(), T.copy()
    arg = T
    if case["kind"] == "dask":
        arg = orc.mk(T, "dask")
    elif case["kind"] == "scalar":
        arg = float(T[0])
        T0 = T0[:1]
    elif case["kind"] == "list":
        arg = T.tolist()
    elif case["shape"]:
        arg = T.reshape(case["shape"])
    out = orc.val(f(w, arg))
    return conc.first(conc.close(out, orc.planck(w0.tolist(), T0.tolist(), case["wl"]), rtol=1e-11 if T.dtype != 'f4' else 2e-4,
                                 atol=1e-290 if T.dtype != 'f4' else 1e-30),
                      conc.unchanged("wave", w0, w), conc.unchanged("T", T0, T) if case["kind"] == "numpy" else None)
