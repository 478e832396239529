"""Independent oracles and input builders for the run-time form of the contracts (plain numpy/math)."""
import math
import os
import random

import numpy as np

H, K, C = 6.62606957e-34, 1.3806488e-23, 2.99792458e8


def tolist(a):
    return [None if (isinstance(x, float) and math.isnan(x)) else x for x in np.asarray(a).ravel().tolist()]


def fromlist(x, shape=None, dt="f8"):
    a = np.array([np.nan if v is None else v for v in x], dtype=dt)
    return a.reshape(shape) if shape is not None else a


def mk(x, kind, chunks=None):
    """Make the array kind under test from a numpy array."""
    if kind == "numpy":
        return np.array(x)
    import dask.array as da
    d = da.from_array(np.array(x), chunks=chunks or tuple(max(1, (n + 1) // 2) for n in np.shape(x)))
    if kind == "dask":
        return d
    import xarray as xr
    if kind == "xarray":
        return xr.DataArray(np.array(x), dims=["y", "x", "z"][:np.ndim(x)], attrs={"units": "u"})
    if kind == "xarray-dask":
        return xr.DataArray(d, dims=["y", "x", "z"][:np.ndim(x)], attrs={"units": "u"})
    raise ValueError(kind)


def val(x):
    """Concrete numpy value of a result."""
    import dask.array as da
    import xarray as xr
    if isinstance(x, xr.DataArray):
        x = x.data
    if isinstance(x, da.Array):
        x = x.compute()
    return x


def planck(wave, T, wavelength=True):
    """Planck's law evaluated element by element with math functions."""
    out = np.empty((len(T), len(wave)))
    for i, t in enumerate(T):
        for j, w in enumerate(wave):
            if not abs(t) > 1e-6:
                out[i, j] = math.nan
                continue
            x = H * C / (K * w * t) if wavelength else H * C * w / (K * t)
            nom = 2 * H * C * C / w ** 5 if wavelength else 2 * H * C * C * w ** 3
            try:
                d = math.expm1(x)
            except OverflowError:
                d = math.inf
            out[i, j] = nom / d if d != 0 else math.nan
    return out


def inverse(w, L, wavelength=True):
    """Inverse Planck, element by element."""
    def one(l):
        if wavelength:
            return H * C / (K * w * math.log1p(2 * H * C * C / (l * w ** 5)))
        return H * C * w / (K * math.log1p(2 * H * C * C * w ** 3 / l))
    return np.array([one(float(l)) if l == l else math.nan for l in np.ravel(L)]).reshape(np.shape(L))


def trapz(y, x):
    """Trapezoid rule."""
    y, x = np.asarray(y, float), np.asarray(x, float)
    return float(((y[:-1] + y[1:]) * (x[1:] - x[:-1])).sum() / 2.0)


def grid(rng, lo, hi, n):
    """Strictly increasing, irregular grid."""
    g = sorted(rng.uniform(lo, hi) for _ in range(n))
    for k in range(1, n):
        if g[k] - g[k - 1] < (hi - lo) * 1e-4:
            g[k] = g[k - 1] + (hi - lo) * 1e-3
    return g


def response(rng, n):
    """Non-negative response with a positive peak."""
    r = [abs(math.sin(math.pi * (k + 0.5) / n)) * rng.uniform(0.6, 1.0) for k in range(n)]
    m = max(r)
    return [x / m for x in r]


# ------------------------------------------------------------------------------ scratch configuration
def scratch():
    d = os.environ["DV_SCRATCH"]
    return d


def configure(**over):
    """Point the real code's configuration at the scratch area (once per process, before import)."""
    d = scratch()
    cfg = dict(rsr_dir=os.path.join(d, "rsr"), rayleigh_dir=os.path.join(d, "rayleigh"),
               tb2rad_dir=os.path.join(d, "tb2rad"), download_from_internet=False)
    cfg.update(over)
    for k in ("rsr_dir", "rayleigh_dir", "tb2rad_dir"):
        os.makedirs(cfg[k], exist_ok=True)
    path = os.path.join(d, "cfg.yaml")
    import yaml
    with open(path, "w") as f:
        yaml.safe_dump(cfg, f)
    os.environ["PSP_CONFIG_FILE"] = path
    return cfg


class rsr_files:
    """Write RSR files into the scratch rsr_dir: {(platform, instrument-as-in-filename): {band: [(wl, resp, cw)...]}}.

    Wavelengths in microns, stored as single precision in micron with scale 1e-6."""

    def __init__(self, files, dtype="f4"):
        self.files, self.dtype = files, dtype

    def __enter__(self):
        import h5py
        self.cfg = configure()
        self.paths = []
        for (plat, inst), bands in self.files.items():
            p = os.path.join(self.cfg["rsr_dir"], "rsr_%s_%s.h5" % (inst, plat))
            self.paths.append(p)
            with h5py.File(p, "w") as f:
                f.attrs["description"] = "test"
                f.attrs["platform_name"] = plat
                f.attrs["sensor"] = inst
                f.attrs["band_names"] = [b.encode() for b in bands]
                for b, dets in bands.items():
                    g = f.create_group(b)
                    if len(dets) > 1:
                        g.attrs["number_of_detectors"] = len(dets)
                    for k, (wl, rs, cw) in enumerate(dets):
                        gg = g.create_group("det-%d" % (k + 1)) if len(dets) > 1 else g
                        gg.attrs["central_wavelength"] = cw
                        d = gg.create_dataset("response", data=np.asarray(rs, self.dtype))
                        d = gg.create_dataset("wavelength", data=np.asarray(wl, self.dtype))
                        d.attrs["scale"] = 1e-6
                        d.attrs["unit"] = "m"
        with open(os.path.join(self.cfg["rsr_dir"], "PYSPECTRAL_RSR_VERSION"), "w") as f:
            f.write("v0.0.0\n")
        return self.cfg

    def __exit__(self, *a):
        for p in self.paths:
            try:
                os.remove(p)
            except OSError:
                pass
