"""Shared by C24, C25: a Rayleigh object over an arbitrary table."""
import os

import numpy as rnp
import z3

from dv import core, shims
from dv.core import Unsupported
from dv.ioshims import FS, H5Data, H5Obj, build_h5py, expanduser, mkworld, pjoin
from dv.loops import VDict
from dv.values import El, SNum, dimz, rv, to_real
from props import orc, sym
from props.c20 import zs


class Table:
    """An arbitrary Rayleigh table: reflectance[wavelength, sun secant, azimuth difference, satellite secant]."""

    def __init__(self, v, dt="f8"):
        self.nw, self.ns, self.na, self.nt = (v.dim(x, lo=2) for x in ("n_wvl", "n_sunz", "n_azid", "n_satz"))
        self.wvl = v.increasing(v.arr("wavelengths", (self.nw,), where=lambda r, i: r > 0))
        self.sunz = v.increasing(v.arr("sun_zenith_secant", (self.ns,), where=lambda r, i: r >= 1))
        self.satz = v.increasing(v.arr("satellite_zenith_secant", (self.nt,), where=lambda r, i: r >= 1))
        self.azid = v.increasing(v.arr("azimuth_difference", (self.na,)))
        self.refl = v.arr("reflectance", (self.nw, self.ns, self.na, self.nt), dt=dt)

    def file(self):
        d = VDict()
        for k, a in (("reflectance", self.refl), ("wavelengths", self.wvl), ("azimuth_difference", self.azid),
                     ("satellite_zenith_secant", self.satz), ("sun_zenith_secant", self.sunz)):
            d[k] = H5Data(a)
        return H5Obj(children=d)

    def unchanged(self, v):
        v.ensure("frame: the table is not modified", all(a.version == 0 for a in (self.wvl, self.sunz, self.satz, self.azid, self.refl)))


def setup(v, table=None, rsr=None, missing=None, exists=True):
    """-> module, Rayleigh object, its table. The file system holds exactly this object's table."""
    fs = FS()
    rd = expanduser(v.str("rayleigh_dir"))
    t = table or Table(v)
    conf = sym.mkd({"rayleigh_dir": rd, "download_from_internet": False})
    want = pjoin(pjoin(rd, "marine_clean_aerosol"), "rayleigh_lut_us-standard.h5")

    def files(s):
        v.ensure("only this object's table is read", zs(s) == zs(want))
        return t.file()
    kw = dict(overrides={"pyspectral.config": {"get_config": lambda: conf}}, fs=fs, h5=build_h5py(files))
    w, calls = sym.rsr_world(rsr if rsr is not None else {}, **kw)
    mod = w.load("pyspectral.rayleigh")
    obj = mod.Rayleigh("NOAA-20", "viirs")
    there = z3.And(fs.EX(zs(want)), fs.ISF(zs(want)))
    if exists is True:
        v.assume(there)
    elif exists is False:
        v.assume(z3.Not(there))
    return w, mod, obj, t, calls


def bracket(v, t, x):
    """k with wvl[k-1] < x <= wvl[k] (exists when x is strictly inside the range)."""
    k = z3.Int("bracket")
    v.c.assume(z3.And(k >= 1, k < dimz(t.nw)))
    lo, hi = t.wvl.elem(k - 1).r, t.wvl.elem(k).r
    v.c.assume(z3.And(lo < x, x <= hi))
    return k, lo, hi


def secant(v, e, mx):
    """Secant of the zenith angle (degrees), missing -> 0, clipped to 0 .. angle of the largest tabulated secant."""
    lim = SNum(shims.NP_FUNCS["rad2deg"](shims.NP_FUNCS["arccos"](1.0 / SNum(mx, core.FALSE, None, "float"))).el().r, core.FALSE, None, "float")
    a = z3.If(e.nan, rv(0), to_real(e.r))
    a = z3.If(a < 0, rv(0), a)
    a = z3.If(a > lim.r, lim.r, a)
    return 1 / shims.NP_FUNCS["cos"](shims.NP_FUNCS["deg2rad"](SNum(a, core.FALSE, None, "float"))).el().r


# ---------------------------------------------------------------------------------- run-time form
def random_table(rng, f4=False):
    import numpy as np
    nw, ns, na, nt = (rng.choice([2, 3, 5]) for _ in range(4))
    r = np.random.RandomState(rng.randrange(2 ** 31))
    return dict(wvl=orc.grid(rng, 400, 800, nw), smax=rng.choice([1.5, 3.0, 24.75]), tmax=rng.choice([1.5, 3.0, 2.9]),
                n=[ns, na, nt], refl=(r.rand(nw, ns, na, nt) * rng.choice([0.2, 1.0, 1.5]) - rng.choice([0, 0, 0.1])).tolist(),
                dt="f4" if f4 else "f8", amax=rng.choice([180.0, 180.0, 170.0]))


def write_table(path, t):
    import h5py
    import numpy as np
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ns, na, nt = t["n"]
    with h5py.File(path, "w") as f:
        f["reflectance"] = np.array(t["refl"], t["dt"])
        f["wavelengths"] = np.array(t["wvl"])
        f["azimuth_difference"] = np.linspace(0, t["amax"], na)
        f["satellite_zenith_secant"] = np.linspace(1, t["tmax"], nt)
        f["sun_zenith_secant"] = np.linspace(1, t["smax"], ns)


def oracle(t, wvl, sun, sat, azi, red=None):
    """Plain-loop multilinear interpolation in double precision; wvl in nm strictly inside the range."""
    import numpy as np
    W, R = t["wvl"], np.array(t["refl"], t["dt"]).astype("f8")
    k = next(q for q in range(1, len(W)) if wvl <= W[q])
    f = (W[k] - wvl) / (W[k] - W[k - 1])
    G = f * R[k - 1] + (1 - f) * R[k]
    ns, na, nt = t["n"]

    def sec(z, mx):
        z = 0.0 if np.isnan(z) else float(z)
        return 1 / np.cos(np.deg2rad(min(max(z, 0.0), np.rad2deg(np.arccos(1 / mx)))))

    def cell(x, lo, hi, n):
        p = (x - lo) / (hi - lo) * (n - 1)
        q = min(max(int(np.floor(p)), 0), n - 2)
        return q, p - q
    out = np.empty(np.shape(sun))
    for i in np.ndindex(out.shape):
        a, fa = cell(sec(sun[i], t["smax"]), 1, t["smax"], ns)
        b, fb = cell(180 - float(azi[i]), 0, t["amax"], na)
        c, fc = cell(sec(sat[i], t["tmax"]), 1, t["tmax"], nt)
        s = 0
        for x, wx in ((a, 1 - fa), (a + 1, fa)):
            for y, wy in ((b, 1 - fb), (b + 1, fb)):
                for z, wz in ((c, 1 - fc), (c + 1, fc)):
                    s += wx * wy * wz * G[x, y, z]
        s *= 100
        if red is not None and not red[i] < 20:
            s *= 1 - (float(red[i]) - 20) / 80
        out[i] = min(max(s, 0), 100) if s == s else s
    return out
