"""Symbolic building blocks shared by the contracts."""
import types

import z3

from dv import loops, shims
from dv.ioshims import mkworld
from dv.values import SArr, SNum, El, rv, F8

mkd = loops.HOOKS.mkdict


def band(v, name, n=None, central=None, lo=0, extra=(), dt="f8"):
    """One detector record: strictly increasing positive wavelengths (microns), responses >= 0, central wavelength."""
    n = n if n is not None else v.dim("n_" + name, lo=2)
    wl = v.increasing(v.arr("wl_" + name, (n,), dt=dt, where=lambda r, i: r > lo))
    rs = v.arr("resp_" + name, (n,), dt=dt, where=lambda r, i: r >= 0)
    cw = central if central is not None else v.num("cw_" + name, gt=0)
    return mkd({"wavelength": wl, "response": rs, "central_wavelength": cw}), wl, rs, cw


class RSRStub:
    """Contract of RelativeSpectralResponse used by its callers: band -> detector -> record, microns, scale 1e-6.

    The contract itself is what C18 (reading) and C12 (conversion) establish on the real class."""
    made = None

    def __init__(self, rsr, calls):
        self._rsr, self._calls = rsr, calls

    def __call__(self, platform_name=None, instrument=None, filename=None):
        o = types.SimpleNamespace()
        self._calls.append((platform_name, instrument, filename))
        o.rsr = self._rsr
        o.unit = "1e-6 m"
        o.si_scale = shims_q("1e-6")
        o.platform_name, o.instrument, o.filename = platform_name, instrument, filename
        o.band_names = loops.HOOKS.mklist(list(dict.keys(self._rsr)))

        def integral(band_name):
            out = mkd({})
            for d in dict.keys(self._rsr[band_name]):
                rec = self._rsr[band_name][d]
                out[d] = shims.trapezoid(rec["response"], rec["wavelength"])
            return out
        o.integral = integral
        return o


def shims_q(t):
    return loops.HOOKS.q(t)


def rsr_world(rsr, **kw):
    """A world where RelativeSpectralResponse is replaced by its contract. -> (world, recorded calls)"""
    calls = []
    ov = dict(kw.pop("overrides", None) or {})
    o = dict(ov.get("pyspectral.rsr_reader", {}))
    o["RelativeSpectralResponse"] = RSRStub(rsr, calls)
    ov["pyspectral.rsr_reader"] = o
    return mkworld(overrides=ov, **kw), calls


def earr(dims, f, dt=F8):
    """Specification array with elements f(*idx) (a real term)."""
    def g(*i):
        r = f(*i)
        return r if isinstance(r, El) else El(r)
    return SArr(tuple(dims), g, dt, "numpy")


def trz(y, x):
    return shims.trapezoid(y, x)
