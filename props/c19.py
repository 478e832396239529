"""C19: converted response files read back what was converted."""
import numpy as np
import z3

from dv import conc, core, loops, shims
from dv.ioshims import FS, H5Data, H5Obj, H5WData, H5WGroup, build_h5py, mkworld, pjoin, s_parts
from dv.session import Contract
from dv.values import STR, SArr, SNum, SStr, rv
from props import orc, platforms, sym
from props.c13 import trz_linear  # noqa: F401  (linearity lemma used by central wave proofs)

Q = loops.HOOKS.q


def zs(x):
    return s_parts(x).z


def readable(v, g):
    """The written tree as h5py gives it back (data in the dataset's type)."""
    ch = {}
    for k, x in dict.items(g.children):
        if isinstance(x, H5WGroup):
            ch[k] = readable(v, x)
        else:
            if x.data is None:
                v.ensure("dataset %s has data" % k, False)
                continue
            a = x.data
            if x.shape_ is not None:
                v.ensure("dataset %s has the shape of its data" % k, z3.And(
                    *[z3.BoolVal(len(x.shape_) == a.ndim)] + [core.as_bool(SNum(rv(0)) + p == SNum(rv(0)) + q)
                                                             for p, q in zip(x.shape_, a.shape)]))
            ch[k] = H5Data(a.astype(x.dt) if x.dt is not None and x.dt != a.dt else a, x.attrs)
    return H5Obj(g.attrs, sym.mkd(ch), g.name)


class Raw:
    """What the conversion scripts hand over: a class giving instrument, output directory and raw responses of a band."""

    def __init__(self, inst, out, data):
        self.inst, self.out, self.data, self.made = inst, out, data, []

    def __call__(self, band, platform):
        self.made.append((band, platform))
        import types
        return types.SimpleNamespace(instrument=self.inst, output_dir=self.out, rsr=self.data[band], platform_name=platform,
                                     bandname=band)


def make(v, bands, dets, nan):
    data, want = {}, {}
    for b in bands:
        n = v.dim("n_" + b, lo=2)
        if nan:
            wl = v.arr("wl_" + b, (n,), nan=True, where=lambda r, i: r > 0)
        else:
            wl = v.increasing(v.arr("wl_" + b, (n,), where=lambda r, i: r > 0))
        if dets is None:
            rs = v.arr("rs_" + b, (n,), nan=nan, where=lambda r, i: r >= 0)
            if nan:  # a response may be missing where the wavelength is
                rs.add_hook(lambda i, e, wl=wl: v.c.fact(z3.Implies(z3.And(wl.inrange(i), e.nan), wl.elem(*i).nan)))
            data[b] = sym.mkd({"wavelength": wl, "response": rs})
            want[b, "det-1"] = (wl, rs)
        else:
            data[b] = sym.mkd({})
            for d in dets:
                rs = v.arr("rs_%s_%s" % (b, d), (n,), where=lambda r, i: r >= 0)
                data[b][d] = sym.mkd({"wavelength": wl, "response": rs})
                want[b, d] = (wl, rs)
    return data, want


def worlds(v, files, rsr_dir):
    """Writer and reader in one world: what was written can be opened."""
    written = []

    def open_(name):
        for s, g in reversed(written):
            if core.ctx().decide(zs(s) == zs(name)):
                return readable(v, g)
        raise core.Unsupported("file not written")
    ov = {"pyspectral.config": {"get_config": lambda: sym.mkd({"rsr_dir": rsr_dir, "download_from_internet": False})}}
    w = mkworld(overrides=ov, h5=build_h5py(open_, written))
    return w, written


def roundtrip(bands, dets=None, scale=None, nan=False, inst="avhrr-3", plat="NOAA-19"):
    def f(v):
        data, want = make(v, bands, dets, nan)
        w, written = worlds(v, None, "/rsr")
        ut, rd = w.load("pyspectral.utils"), w.load("pyspectral.rsr_reader")
        kw, sc = {}, rv("1e-6")
        if scale is not None:
            s = v.num("scale", gt=0)
            kw["scale"], sc = s, s.r
        if dets is not None:
            kw["detectors"] = loops.HOOKS.mklist(list(dets))
        raw = Raw(inst, "/rsr", data)
        v.must(v.call(ut.convert2hdf5, raw, plat, loops.HOOKS.mklist(list(bands)), **kw), "returns")
        v.ensure("one file written", len(written) == 1)
        path = "/rsr/rsr_%s_%s.h5" % (inst.lower().replace("/", "").replace("-", ""), plat)
        v.ensure("under the name the reader looks for", zs(written[0][0]) == zs(path))
        v.assume(FS.cur().isfile(path).z)
        obj = v.must(v.call(rd.RelativeSpectralResponse, plat, inst), "read back")
        v.ensure("bands in order", [str(x) for x in obj.band_names] == list(bands))
        v.ensure("exactly these bands", sorted(dict.keys(obj.rsr)) == sorted(bands))
        v.ensure("platform", str(obj.platform_name) == plat)
        named = v.must(v.call(rd.RelativeSpectralResponse, filename=path), "read back by file name")
        v.ensure("platform stored in the file", str(named.platform_name) == plat)
        for b in bands:
            dn = ["det-1"] if dets is None else list(dets)
            v.ensure("exactly these detectors", sorted(dict.keys(obj.rsr[b])) == sorted(dn))
            for d in dn:
                wl, rs = want[b, d]
                rec = obj.rsr[b][d]
                v.ensure_shape("%s %s wavelengths" % (b, d), rec["wavelength"], wl.dims)
                v.ensure_shape("%s %s responses" % (b, d), rec["response"], rs.dims)
                v.ensure_dtype("%s %s single precision" % (b, d), rec["response"], "f4")
                (i,) = v.index(wl, b + d)
                v.ensure_el("%s %s wavelength" % (b, d), rec["wavelength"].elem(i), wl.elem(i).r * sc * 1000000, wl.elem(i).nan)
                v.ensure_el("%s %s response" % (b, d), rec["response"].elem(i), rs.elem(i).r, rs.elem(i).nan)
                if nan:
                    ok = ~shims.NP_FUNCS["isnan"](wl)
                    x, y = wl[ok], rs[ok]
                else:
                    x, y = wl, rs
                P = sym.earr(x.dims, lambda j: y.elem(j).r * x.elem(j).r)
                den = sym.trz(y, x).r
                v.assume(den > 0)
                v.ensure_el("%s %s central wavelength" % (b, d), rec["central_wavelength"],
                            sym.trz(P, x).r / den * sc * 1000000)
                v.ensure("frame: raw data unchanged", wl.version == 0 and rs.version == 0)
        v.ensure("each band converted once, for this platform", [(str(a), str(p)) for a, p in raw.made] ==
                 [(b, plat) for b in bands])
    return f


def filenames(pairs):
    """Every platform and instrument of the table: written where the reader looks, next to the other output."""
    def f(v):
        k = z3.Int("in:pair")
        v.c.inputs["pair"] = ("int", k)
        plat, inst = pairs[-1]
        for n, p in enumerate(pairs[:-1]):
            if v.c.decide(k == n):
                plat, inst = p
                break
        data, want = make(v, ["ch1"], None, False)
        out = v.str("output_dir")
        w, written = worlds(v, None, out)
        ut = w.load("pyspectral.utils")
        v.must(v.call(ut.convert2hdf5, Raw(inst, out, data), plat, loops.HOOKS.mklist(["ch1"])), "returns")
        rd = w.load("pyspectral.rsr_reader")
        name = rd._get_rsr_filename(plat, ut.check_and_adjust_instrument_name(plat, inst)) if hasattr(rd, "_get_rsr_filename") \
            else "rsr_%s_%s.h5" % (inst.replace("/", "").replace("-", ""), plat)
        v.ensure("%s %s: one file" % (plat, inst), len(written) == 1)
        v.ensure("%s %s: the file the reader opens" % (plat, inst), zs(written[0][0]) == zs(pjoin(out, name)))
    return f


PAIRS = [(p, i) for p, t in sorted(platforms.INSTRUMENTS.items()) for i in t]
D2 = ("det-1", "det-2")
CONTRACTS = [Contract("round trip[one band]", roundtrip(["ch1"])),
             Contract("round trip[three bands]", roundtrip(["3b", "1", "2"])),
             Contract("round trip[any scale]", roundtrip(["ch1", "ch2"], scale=True)),
             Contract("round trip[missing samples]", roundtrip(["ch1"], nan=True)),
             Contract("round trip[slash instrument]", roundtrip(["ch1"], inst="avhrr/3")),
             Contract("round trip[two detectors]", roundtrip(["21", "20"], D2, inst="modis", plat="EOS-Aqua")),
             Contract("round trip[four detectors, any scale]", roundtrip(["20"], ("det-1", "det-2", "det-3", "det-4"), True,
                                                                         inst="modis", plat="EOS-Terra"))] + \
    [Contract("file name[%s %s ...]" % PAIRS[k], filenames(PAIRS[k:k + 12])) for k in range(0, len(PAIRS), 12)]
ASSUMPTIONS = ["one to three bands, up to four detectors (which share their wavelengths, as the writer documents), any number of "
               "samples and any values; instrument names in lower case as in the platform table",
               "h5py stores and returns attributes and data (rounded to single precision)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for p, i in PAIRS:
        yield dict(plat=p, inst=i, bands={"ch1": dict(wl=[0.5, 0.6, 0.8], rs=[[0.1, 1.0, 0.2]])}, dets=None, scale=None, nan=[])
    for k in range({"quick": 600, "thorough": 2500, "search": 3000}[tier]):
        p, i = rng.choice(PAIRS)
        nd = rng.choice([0, 0, 0, 1, 2, 5, 10])
        scale = rng.choice([None, None, 1e-6, 1e-9])
        bands = {}
        for b in rng.sample(["ch1", "ch2", "M01", "20", "VIS0.6", "3b"], rng.randint(1, 4)):
            n = rng.choice([2, 3, 10, 50])
            c = rng.uniform(0.4, 12) * (1e3 if scale == 1e-9 else 1)
            wl = orc.grid(rng, c * 0.9, c * 1.1, n)
            if rng.random() < 0.25:  # measured from the long end
                wl = wl[::-1]
            bands[b] = dict(wl=wl, rs=[orc.response(rng, n) for _ in range(max(nd, 1))])
        yield dict(plat=p, inst=i, bands=bands, dets=["det-%d" % (d + 1) for d in range(nd)] if nd else None, scale=scale,
                   nan=[0] if rng.random() < 0.15 else [], nanresp=rng.random() < 0.5, before=rng.random() < 0.3)


def run_case(case):
    import os
    import types
    cfg = orc.configure()
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import convert2hdf5
    raw = {}
    for b, x in case["bands"].items():
        wl = np.array(x["wl"])
        if len(wl) > 3:
            for k in case["nan"]:
                wl[k] = np.nan
                if case.get("nanresp"):
                    for r in x["rs"]:
                        r[k] = np.nan
        if case["dets"] is None:
            raw[b] = {"wavelength": wl, "response": np.array(x["rs"][0])}
        else:
            raw[b] = {d: {"wavelength": wl.copy(), "response": np.array(r)} for d, r in zip(case["dets"], x["rs"])}

    def cls(band, platform):
        return types.SimpleNamespace(instrument=case["inst"], output_dir=cfg["rsr_dir"], rsr=raw[band], platform_name=platform)
    kw = {}
    if case["dets"]:
        kw["detectors"] = case["dets"]
    if case["scale"]:
        kw["scale"] = case["scale"]
    try:
        if case.get("before"):  # an earlier, different conversion of the same instrument
            old = {b: {"wavelength": np.array([1.0, 2.0, 3.0]), "response": np.array([0.5, 1.0, 0.5])} for b in list(case["bands"]) + ["old"]}
            convert2hdf5(lambda band, platform: types.SimpleNamespace(instrument=case["inst"], output_dir=cfg["rsr_dir"], rsr=old[band], platform_name=platform),
                         case["plat"], list(old))
        convert2hdf5(cls, case["plat"], list(case["bands"]), **kw)
        files = [f for f in os.listdir(cfg["rsr_dir"]) if f.endswith("h5")]
        if len(files) != 1:
            return "files %r" % files
        o = RelativeSpectralResponse(case["plat"], case["inst"])
        o2 = RelativeSpectralResponse(filename=os.path.join(cfg["rsr_dir"], files[0]))
    finally:
        for f in os.listdir(cfg["rsr_dir"]):
            os.remove(os.path.join(cfg["rsr_dir"], f))
    if o2.platform_name != case["plat"]:
        return "platform stored as %r" % (o2.platform_name,)
    if list(o.band_names) != list(case["bands"]) or set(o.rsr.keys()) != set(case["bands"]):
        return "bands %r" % (o.band_names,)
    for b in case["bands"]:
        dn = case["dets"] or ["det-1"]
        if sorted(o.rsr[b]) != sorted(dn):
            return "detectors %r" % sorted(o.rsr[b])
        for d in dn:
            src = raw[b] if case["dets"] is None else raw[b][d]
            wl, rs = src["wavelength"], src["response"]
            r = o.rsr[b][d]
            ok = ~np.isnan(wl)
            den = orc.trapz(rs[ok], wl[ok])
            e = conc.first(conc.close(r["wavelength"], wl * (case["scale"] or 1e-6) * 1e6, rtol=1e-5),
                           conc.close(r["response"], rs, rtol=1e-6, atol=1e-9),
                           conc.close(r["central_wavelength"], orc.trapz(rs[ok] * wl[ok], wl[ok]) / den *
                                      (case["scale"] or 1e-6) * 1e6, rtol=1e-6))
            if e:
                return "%s %s: %s" % (b, d, e)
