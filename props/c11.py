"""C11: the solar spectrum in wavelength and wavenumber space."""
import z3

from dv import conc
from dv.session import Contract
from dv.values import rv
from props import orc, sym
from props.c10 import spectrum


def wavelength(v):
    obj, wl, irr, n, d = spectrum(v)
    v.ensure_shape("wavelengths as in the file", obj.wavelength, (n,))
    (i,) = v.index(wl)
    v.ensure_el("wavelength values", obj.wavelength.elem(i), wl.elem(i).r)
    v.ensure_el("irradiance values", obj.irradiance.elem(i), irr.elem(i).r)
    v.ensure("no wavenumbers", obj.wavenumber is None)
    v.ensure_el("solar constant", v.must(v.call(obj.solar_constant), "returns"), sym.trz(irr, wl).r)
    v.ensure("flux unit", str(obj.units["flux"]) == "W/m^2")


def wavenumber(v):
    obj, wl, irr, n, d = spectrum(v, "wavenumber")
    v.ensure_shape("wavenumbers", obj.wavenumber, (n,))
    v.ensure_shape("irradiances", obj.irradiance, (n,))
    v.ensure("no wavelengths", obj.wavelength is None)
    (i,) = v.index(wl)
    l = wl.elem(n - 1 - i).r
    v.ensure_el("wavenumber = 1e4 / wavelength, ascending", obj.wavenumber.elem(i), 10000 / l)
    # E_nu d(nu) = E_lambda d(lambda), in milliwatt
    v.ensure_el("energy per wavenumber", obj.irradiance.elem(i), irr.elem(n - 1 - i).r * 1000 * l * l / 10000)
    v.ensure("ascending", z3.Implies(i + 1 < n, obj.wavenumber.elem(i).r < obj.wavenumber.elem(i + 1).r))
    sx = sym.earr((n,), lambda j: 10000 / wl.elem(n - 1 - j).r)
    si = sym.earr((n,), lambda j: irr.elem(n - 1 - j).r * wl.elem(n - 1 - j).r * wl.elem(n - 1 - j).r / 10)
    v.ensure_el("solar constant", v.must(v.call(obj.solar_constant), "returns"), sym.trz(si, sx).r)
    v.ensure("flux unit", str(obj.units["flux"]) == "mW/m^2")


def late(v):
    """Converting after construction gives the same spectrum."""
    obj, wl, irr, n, d = spectrum(v)
    v.must(v.call(obj.convert2wavenumber), "returns")
    (i,) = v.index(wl)
    l = wl.elem(n - 1 - i).r
    v.ensure_el("wavenumber", obj.wavenumber.elem(i), 10000 / l)
    v.ensure_el("irradiance", obj.irradiance.elem(i), irr.elem(n - 1 - i).r * l * l / 10)
    v.ensure("wavelengths gone", obj.wavelength is None)
    v.ensure("frame: file data unchanged", wl.version == 0 and irr.version == 0)


CONTRACTS = [Contract("wavelength space", wavelength), Contract("wavenumber space", wavenumber),
             Contract("conversion after construction", late)]
ASSUMPTIONS = ["numpy.genfromtxt returns the file's columns; wavelengths in the file are positive and ascending"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    yield dict(default=True, wn=False, late=False, n=0)
    yield dict(default=True, wn=True, late=False, n=0)
    for k in range({"quick": 1000, "thorough": 1000, "search": 1500}[tier]):
        yield dict(default=False, wn=rng.random() < 0.6, late=rng.random() < 0.4, n=rng.randint(2, 40),
                   wl=orc.grid(rng, 0.1, 10, 40), irr=[rng.uniform(0, 2000) for _ in range(40)])


def run_case(case):
    import os
    import numpy as np
    orc.configure()
    from pyspectral.solar import TOTAL_IRRADIANCE_SPECTRUM_2000ASTM, SolarIrradianceSpectrum
    with conc.scratchdir() as d:
        fn = TOTAL_IRRADIANCE_SPECTRUM_2000ASTM
        if not case["default"]:
            fn = os.path.join(d, "s.dat")
            np.savetxt(fn, np.column_stack([case["wl"][:case["n"]], case["irr"][:case["n"]]]), fmt="%.17g")
        sw, si = np.loadtxt(fn, unpack=True)
        if case["wn"] and not case["late"]:
            s = SolarIrradianceSpectrum(fn, wavespace="wavenumber")
        else:
            s = SolarIrradianceSpectrum(fn)
            if case["wn"]:
                s.convert2wavenumber()
    if case["wn"]:
        x, y = 1e4 / sw[::-1], (si * sw * sw / 10)[::-1]
        gx, other = s.wavenumber, s.wavelength
    else:
        x, y, gx, other = sw, si, s.wavelength, s.wavenumber
    m = conc.first(conc.close(gx, x, rtol=1e-10), conc.close(s.irradiance, y, rtol=1e-10),
                   None if other is None else "both spaces set",
                   conc.close(s.solar_constant(), orc.trapz(y, x), rtol=1e-9))
    if m:
        return m
    if not case["late"] and s.units["flux"] != ("mW/m^2" if case["wn"] else "W/m^2"):
        return "flux unit %r" % s.units["flux"]
    if case["default"] and not case["wn"] and abs(s.solar_constant() - 1366.1) > 1:
        return "solar constant %r" % s.solar_constant()
