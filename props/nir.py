"""Shared set-up for the 3.x micron reflectance contracts."""
import z3

from dv import core, prover
from dv.ioshims import FS
from dv.values import El, SArr, SNum, rv
from props import sym
from props.c01 import planck_term

EPS = rv("0.005")


class SolarStub:
    """The solar spectrum by its contract (C10): the in-band flux of one detector's response curve, and of no other."""
    IRR = z3.Function("irradiance", z3.RealSort(), z3.RealSort())

    def __init__(self, filename=None, dlambda=None, wavespace="wavelength"):
        if wavespace != "wavelength" or filename is not None:
            raise core.Unsupported("solar spectrum other than the default one")

    @classmethod
    def band_flux(cls, wl, rs):
        return sym.trz(sym.earr(wl.dims, lambda j: cls.IRR(wl.elem(j).r) * rs.elem(j).r), wl)

    def inband_solarflux(self, rsr, scale=1.0, **options):
        rec = rsr if "response" in rsr else rsr["det-%s" % options.get("detector", 1)]
        if not (isinstance(scale, float) and scale == 1.0):
            raise core.Unsupported("scaled response")
        return self.band_flux(rec["wavelength"], rec["response"])


class Nir:
    """A calculator built by the real constructor with a symbolic response, table and solar flux."""

    def __init__(self, v, lut=True, limits=None, det="det-1", flux=True, plat="Plat-A", inst="instra", opts=None,
                 pre=None):
        self.v, self.lutmode = v, lut
        self.cw = v.num("cw", lo="7/2" and rv("3.5"), hi=rv("3.95"))
        self.n = v.dim("nrsr", lo=2)
        rec1, self.wl, self.rs, _ = sym.band(v, "b", self.n, central=self.cw)
        rsr = sym.mkd({"ch20": sym.mkd({det: rec1})})
        if det != "det-1":
            rsr["ch20"]["det-1"] = sym.band(v, "b1", self.n, central=self.cw)[0]
        if pre is not None and pre != "det-1":
            rsr["ch20"][pre] = sym.band(v, "bp", self.n, central=self.cw)[0]
        self.nl = v.dim("nlut", lo=1, hi=3000)
        nl = self.nl
        self.lrad = v.arr("lut", (nl,), where=lambda r, i: r > 0)
        tb = SArr((nl,), lambda i: El(z3.ToReal(1500 + i) / 10), "f8", "numpy")
        fs = FS()
        self.loads = []

        def load(p, *a, **k):
            self.loads.append(p)
            return sym.mkd({"tb": tb, "radiance": self.lrad})
        self.saved = []

        def savez(p, **k):
            self.saved.append((p, k))
        over = {"pyspectral.config": {"get_config": lambda: sym.mkd(dict({"tb2rad_dir": "/lutdir"}, **(opts or {})))}}
        if not flux:
            over["pyspectral.solar"] = {"SolarIrradianceSpectrum": SolarStub}
        self.w, self.calls = sym.rsr_world(rsr, fs=fs, np_extra={"load": load, "savez": savez}, overrides=over)
        m = self.w.load("pyspectral.near_infrared_reflectance")
        self.mod = m
        kw = {}
        if flux:
            self.flux = v.num("flux", gt=0)
            kw["solar_flux"] = self.flux
        if limits == "none":
            self.thr, self.lim = SNum(rv(85)), None
            kw.update(masking_limit=None)
        elif limits:
            self.thr, self.lim = v.num("thr", lo=0, hi=90), v.num("lim", lo=0, hi=100)
            kw.update(sunz_threshold=self.thr, masking_limit=self.lim)
        else:
            self.thr = self.lim = SNum(rv(85))
        if det != "det-1":
            kw["detector"] = det
        if pre is not None:
            # an earlier calculator of the same program, for another detector of the same band
            v.must(v.call(m.Calculator, plat, inst, "ch20", **dict(kw, detector=pre)), "earlier constructor returns")
        self.calc = v.must(v.call(m.Calculator, plat, inst, "ch20", **kw), "constructor returns")
        x = sym.earr((self.n,), lambda j: self.wl.elem(j).r * rv("1e-6"))
        r = sym.earr((self.n,), lambda j: self.rs.elem(j).r)
        self.x, self.r = x, r
        self.integral = sym.trz(r, x).r
        v.assume(self.integral > 0)
        if not flux:
            self.flux = SNum(SolarStub.band_flux(self.wl, self.rs).r)
            v.assume(self.flux.r > 0)

    def rad(self, t):
        """Spectral radiance of the band at temperature t (table or integral)."""
        if self.lutmode:
            k = z3.ToInt(t * 10) - 1500
            k = z3.If(k < 0, 0, z3.If(k > self.nl - 1, self.nl - 1, k))
            return self.lrad.elem(k).r
        y = sym.earr((self.n,), lambda j: planck_term(self.x.elem(j).r, t, True) * self.r.elem(j).r)
        return sym.trz(y, self.x).r / self.integral

    def tbs(self, kind, dt="f8", co2=False, nan=True, shape=("ny", "nx"), conan=False):
        v = self.v
        dims = tuple(v.dim(s) if isinstance(s, str) else s for s in shape)
        rng = (lambda r, i: z3.And(r > 100, r < 400))
        kinds = kind if isinstance(kind, tuple) else (kind,) * 4

        def arr(name, k, nan, **kw):
            return v.arr(name, dims, dt=dt, kind=k, nan=nan, mask=k == "masked", **kw)
        a = [arr("sunz", kinds[0], nan), arr("tb3", kinds[1], nan, where=rng), arr("tb11", kinds[2], nan, where=rng)]
        if co2:
            a.append(arr("tb13", kinds[3], conan, where=rng))
        return a

    def spec(self, sz, t3, t11, t13=None, mask=True):
        """-> (reflectance term, missing condition)"""
        lo = z3.If(sz.r < 0, rv(0), sz.r)
        thr = self.thr.r
        cl = z3.If(lo > thr, thr, lo)
        sol = self.flux.r * prover.COS(cl * prover.PI / 180) / prover.PI
        e11 = self.rad(t11.r) * self.integral
        if t13 is not None:
            q = t11.r - rv("0.25") * (t11.r - t13.r)
            e11 = e11 * (q * q * q * q) / (t11.r * t11.r * t11.r * t11.r)
        num = self.rad(t3.r) * self.integral - e11
        den = sol - e11
        miss = z3.Or(t3.nan, t11.nan, sz.nan, den < EPS)
        if t13 is not None:
            miss = z3.Or(miss, t13.nan)
        if self.lim is not None:
            miss = z3.Or(miss, sz.r < 0, sz.r > self.lim.r)
        return num / den, miss
