"""C18: reading spectral response files."""
import numpy as np
import z3

from dv import conc, core, loops
from dv.ioshims import FS, Environ, H5Data, H5Obj, SPath, build_h5py, expanduser, mkworld, pjoin, s_parts
from dv.session import Contract
from dv.values import STR, SArr, SNum, SStr, rv, strlit
from props import orc, platforms, sym

NAMES = {"str": lambda b: b, "bytes": lambda b: b.encode(), "np.bytes": lambda b: np.bytes_(b.encode()), "np.str": np.str_}
ADJ = z3.Function("c18:adjusted", STR, STR, STR)


def zs(x):
    return s_parts(x).z


def dataset(v, name, n, scale=None):
    a = v.arr(name, (n,), dt="f4")
    d = H5Data(a)
    if scale is not None:
        d.attrs["scale"] = scale
    return d


def level(v, tag, has, want):
    """Data at one level (band or detector): -> (children, attrs, description)"""
    ch, at, desc = {}, {}, {}
    if has["response"]:
        n = v.dim("nr_" + tag, lo=1)
        ch["response"] = dataset(v, "resp_" + tag, n)
        desc["response"] = ch["response"].arr
    if has["wavelength"]:
        n = v.dim("nw_" + tag, lo=1)
        sc = v.num("scale_" + tag, gt=0)
        ch["wavelength"] = dataset(v, "wl_" + tag, n, sc)
        desc["wavelength"] = (ch["wavelength"].arr, sc)
    if has["central_wavelength"]:
        at["central_wavelength"] = v.num("cw_" + tag, gt=0)
        desc["central_wavelength"] = at["central_wavelength"]
    return ch, at, desc


PARTS = ("response", "wavelength", "central_wavelength")


def build(v, layout, kind, sensor=True, platform=True, forks=True):
    """An HDF5 tree: {band: number of detectors (0: attribute missing)}; which detector has data of its own is
    arbitrary (one path per possibility), the band level then holds the rest."""
    bands, want = {}, {}
    for b, nd in layout.items():
        full = dict.fromkeys(PARTS, True)
        bch, bat, bdesc = level(v, b, full, True)
        if nd:
            bat["number_of_detectors"] = nd
        for k in range(max(nd, 1)):
            d = "det-%d" % (k + 1)
            tag = b + "_" + d
            own = {}
            group = v.c.decide(z3.Bool("in:group_" + tag)) if forks else bool(nd)
            for p in PARTS:
                own[p] = group and (v.c.decide(z3.Bool("in:own_%s_%s" % (p, tag))) if forks else True)
            ch, at, desc = level(v, tag, own, True)
            if group:
                bch[d] = H5Obj(sym.mkd(at), sym.mkd(ch), d)
            want[b, d] = {p: desc.get(p, bdesc[p]) for p in PARTS}
        bands[b] = H5Obj(sym.mkd(bat), sym.mkd(bch), b)
    at = {"band_names": loops.HOOKS.mklist([NAMES[kind](b) for b in layout]), "description": NAMES[kind]("some text")}
    if platform:
        at["platform_name"] = NAMES[kind](platform if isinstance(platform, str) else "Meteosat-9")
    if sensor:
        at["sensor"] = NAMES[kind](sensor if isinstance(sensor, str) else "seviri")
    return H5Obj(sym.mkd(at), sym.mkd(bands)), want


def world(v, root, do_download=False, adjust=True, rsr_dir=None):
    fs = FS()
    calls = []

    def open_(name):
        calls.append(name)
        return root

    ov = {"pyspectral.config": {"get_config": lambda: sym.mkd({"rsr_dir": rsr_dir if rsr_dir is not None else "/rsr",
                                                               "download_from_internet": do_download})}}
    w = mkworld(overrides=ov, fs=fs, h5=build_h5py(open_))
    mod = w.load("pyspectral.rsr_reader")
    if adjust:
        mod.check_and_adjust_instrument_name = lambda p, i: SStr.atom(ADJ(zs(p), zs(i)))
    return w, mod, calls


def check_content(v, obj, layout, want):
    v.ensure("every band, in order", [str(x) for x in obj.band_names] == list(layout))
    v.ensure("exactly the listed bands", sorted(dict.keys(obj.rsr)) == sorted(layout))
    for b, nd in layout.items():
        dets = ["det-%d" % (k + 1) for k in range(max(nd, 1))]
        v.ensure("every detector", sorted(dict.keys(obj.rsr[b])) == sorted(dets))
        for d in dets:
            rec, w = obj.rsr[b][d], want[b, d]
            r = w["response"]
            v.ensure_shape("%s %s response samples" % (b, d), rec["response"], r.dims)
            (i,) = v.index(r, "r" + b + d)
            v.ensure_el("%s %s response" % (b, d), rec["response"].elem(i), r.elem(i).r)
            a, sc = w["wavelength"]
            v.ensure_shape("%s %s wavelength samples" % (b, d), rec["wavelength"], a.dims)
            (i,) = v.index(a, "w" + b + d)
            v.ensure_el("%s %s wavelength in microns" % (b, d), rec["wavelength"].elem(i), a.elem(i).r * sc.r * 1000000)
            v.ensure_el("%s %s central wavelength" % (b, d), rec["central_wavelength"], w["central_wavelength"].r)


def content(layout, kind="str", forks=True, named=True):
    def f(v):
        root, want = build(v, layout, kind, forks=forks)
        w, mod, calls = world(v, root)
        v.assume(FS.cur().isfile("/some/file.h5").z if named else core.TRUE)
        if named:
            obj = v.must(v.call(mod.RelativeSpectralResponse, filename="/some/file.h5"), "returns")
        check_content(v, obj, layout, want)
        v.ensure("read once", [str(x) for x in calls] == ["/some/file.h5"])
        v.ensure("platform of the file", str(obj.platform_name) == "Meteosat-9")
        v.ensure("instrument of the file", str(obj.instrument) == "seviri")
        v.ensure("description", str(obj.description) == "some text")
        v.ensure("unit", str(obj.unit) == "1e-6 m")
        v.ensure_el("SI scale", SNum(rv(1)) * obj.si_scale, rv("1e-6"))
        ms = [x for b in root.children.values() for x in dict.values(b.children) if isinstance(x, H5Data)]
        v.ensure("frame: file data unchanged", all(x.arr.version == 0 for x in ms))
    return f


def located(v):
    """Any platform, instrument and directory: the file is looked for under its one name."""
    layout = {"ch1": 1}
    root, want = build(v, layout, "str", forks=False)
    rd = v.str("rsr_dir")
    w, mod, calls = world(v, root, rsr_dir=rd)
    p, i = v.str("platform"), v.str("instrument")
    out = v.call(mod.RelativeSpectralResponse, p, i)
    adj = SStr.atom(ADJ(p.z, i.z))
    path = pjoin(expanduser(rd), SStr(("rsr_",) + adj.parts + ("_",) + p.parts + (".h5",)))
    if not v.c.decide(FS.cur().isfile(path).z):
        v.must_raise(out, FileNotFoundError, "missing file refused")
        v.ensure("nothing read", calls == [])
        return
    obj = v.must(out, "returns")
    v.ensure("one file read", len(calls) == 1)
    v.ensure("the file of this platform and instrument", zs(calls[0]) == zs(path))
    v.ensure("platform as given", zs(obj.platform_name) == p.z)
    v.ensure("instrument normalised", zs(obj.instrument) == adj.z)
    v.ensure("container uses the instrument", zs(obj.rsr.instrument) == adj.z)
    v.ensure("file name reported", zs(obj.filename) == zs(path))
    check_content(v, obj, layout, want)


def given(v):
    """A file given by name is taken as it is; a missing one is refused."""
    layout = {"ch1": 1, "ch2": 2}
    root, want = build(v, layout, "bytes", forks=False)
    w, mod, calls = world(v, root)
    fn = v.str("filename")
    out = v.call(mod.RelativeSpectralResponse, filename=SPath(fn) if v.c.decide(v.bool("as path").z) else fn)
    if not v.c.decide(FS.cur().isfile(fn).z):
        v.must_raise(out, FileNotFoundError, "missing file refused")
        v.ensure("nothing read", calls == [])
        return
    obj = v.must(out, "returns")
    v.ensure("that file read, once", len(calls) == 1 and zs(calls[0]) == fn.z)
    check_content(v, obj, layout, want)


def contradictory(v):
    root, want = build(v, {"ch1": 1}, "str", forks=False)
    w, mod, calls = world(v, root)
    p, i, fn = v.str("platform"), v.str("instrument"), v.str("filename")
    R = mod.RelativeSpectralResponse
    for tag, kw in (("file and platform", dict(filename=fn, platform_name=p)), ("file and instrument", dict(filename=fn, instrument=i)),
                    ("file and both", dict(filename=fn, platform_name=p, instrument=i)),
                    ("platform only", dict(platform_name=p)), ("instrument only", dict(instrument=i)), ("nothing", {})):
        v.must_raise(v.call(R, **kw), ValueError, tag + " refused")
        v.ensure("nothing read: " + tag, calls == [])


def names(how):
    """Platform and instrument names of files with old or missing attributes."""
    def f(v):
        plat = {"oscar": "eos-2", "plain": "NOAA-99", "old": None, "none": None, "list": "FY-3C"}[how]
        root, want = build(v, {"ch1": 0}, "np.bytes", sensor=how in ("oscar",), platform=plat, forks=False)
        if how == "old":
            root.attrs["platform"], root.attrs["sat_number"] = np.bytes_(b"meteosat"), 9
        w, mod, calls = world(v, root)
        v.assume(FS.cur().isfile("/f.h5").z)
        obj = v.must(v.call(mod.RelativeSpectralResponse, filename="/f.h5"), "returns")
        wp = {"oscar": "EOS-Aqua", "plain": "NOAA-99", "old": "Meteosat-9", "none": None, "list": "FY-3C"}[how]
        wi = {"oscar": "seviri", "plain": None, "old": "seviri", "none": None, "list": ["virr", "mersi-1"]}[how]
        gi = obj.instrument
        v.ensure("platform name", obj.platform_name == wp)
        v.ensure("instrument name", (list(gi) if isinstance(gi, list) else gi) == wi)
    return f


def again(v):
    """Reading a file a second time, after the first object was converted, gives the file's content again."""
    layout = {"ch1": 2}
    root, want = build(v, layout, "str", forks=False)
    for b, d in want:
        v.assume(want[b, d]["response"].dims[0] == want[b, d]["wavelength"][0].dims[0])
    w, mod, calls = world(v, root)
    v.assume(FS.cur().isfile("/some/file.h5").z)
    R = mod.RelativeSpectralResponse
    first = v.must(v.call(R, filename="/some/file.h5"), "returns")
    v.must(v.call(first.convert), "converts")
    obj = v.must(v.call(R, filename="/some/file.h5"), "returns again")
    check_content(v, obj, layout, want)
    v.ensure("unit", str(obj.unit) == "1e-6 m")


def integral(v):
    """The integral of each detector's response over its own wavelengths."""
    layout = {"ch1": 3, "ch2": 1}
    root, want = build(v, layout, "str", forks=False)
    for b, d in want:
        v.assume(want[b, d]["response"].dims[0] == want[b, d]["wavelength"][0].dims[0])
    w, mod, calls = world(v, root)
    v.assume(FS.cur().isfile("/some/file.h5").z)
    obj = v.must(v.call(mod.RelativeSpectralResponse, filename="/some/file.h5"), "returns")
    for b, n in layout.items():
        got = v.must(v.call(obj.integral, b), "returns")
        v.ensure("every detector of the band", sorted(dict.keys(got)) == ["det-%d" % (k + 1) for k in range(n)])
        for d in dict.keys(got):
            (a, sc), r = want[b, d]["wavelength"], want[b, d]["response"]
            x = sym.earr(a.dims, lambda j, a=a, sc=sc: a.elem(j).r * sc.r * 1000000)
            y = sym.earr(a.dims, lambda j, r=r: r.elem(j).r)
            v.ensure_el("integral of its own response", got[d], sym.trz(y, x).r)


LAY = [({"ch1": 0}, "str", True), ({"ch1": 1}, "bytes", True), ({"ch1": 2}, "np.bytes", True),
       ({"ch1": 1, "ch2": 0}, "np.str", True), ({"M01": 3, "I1": 1}, "bytes", False), ({"20": 0, "31": 2, "ch3": 4}, "str", False),
       ({"M12": 17}, "str", False)]
CONTRACTS = [Contract("content[%s %s%s]" % ("+".join("%s:%d" % x for x in l.items()), k, "" if f else " own data"), content(l, k, f))
             for l, k, f in LAY] + \
    [Contract("located by platform and instrument", located), Contract("file given", given),
     Contract("contradictory arguments", contradictory), Contract("read again after conversion", again), Contract("integral", integral)] + \
    [Contract("names in the file[%s]" % h, names(h)) for h in ("oscar", "plain", "old", "none", "list")]
ASSUMPTIONS = ["HDF5 trees of one to three bands and up to 17 detectors, every combination of detector-level and band-level "
               "data, any number of samples, any scale and any values",
               "h5py returns stored attributes and data; check_and_adjust_instrument_name enters by its contract (C17)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 1000, "thorough": 3000, "search": 4000}[tier]):
        bands = {}
        for b in rng.sample(["ch1", "ch2", "M01", "20", "VIS0.6", "band x", "3b"], rng.randint(1, 4)):
            n = rng.choice([1, 2, 5, 30])
            mk = lambda m: dict(wl=[rng.uniform(0.3, 14) for _ in range(m)], rs=[rng.random() - (0.2 if rng.random() < 0.1 else 0) for _ in range(m)],
                                cw=rng.uniform(0.3, 14), scale=rng.choice([1e-6, 1e-9, 1.0]))
            nd = rng.choice([0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 5, 5, 10, 17])
            dets = []
            for d in range(max(nd, 1)):
                x = mk(rng.choice([1, 3, n]))
                own = rng.random()
                x["own"] = [] if own < 0.3 else list(PARTS) if own < 0.7 else [p for p in PARTS if rng.random() < 0.5]
                x["group"] = own >= 0.15
                if not x["group"]:
                    x["own"] = []
                dets.append(x)
            bands[b] = dict(band=mk(n), nd=nd, dets=dets)
        yield dict(bands=bands, kind=rng.choice(["str", "bytes", "np.bytes"]), how=rng.choice(["file", "path", "names", "names", "missing", "both"]),
                   plat=rng.choice(["Meteosat-9", "NOAA-19", "FY-3C", "X-1", "Sentinel-3A", "eos-2"]),
                   inst=rng.choice(["seviri", "avhrr/3", "AVHRR-3", "mersi-1", "slstr", "olci", "modis", "foo-1"]),
                   attrs=rng.choice(["full", "full", "old", "none"]), again=rng.random() < 0.2)


def _put(h5, g, x, parts, dt):
    for p in parts:
        if p == "response":
            g.create_dataset("response", data=np.array(x["rs"], dt))
        elif p == "wavelength":
            d = g.create_dataset("wavelength", data=np.array(x["wl"], dt))
            d.attrs["scale"] = x["scale"]
        else:
            g.attrs["central_wavelength"] = x["cw"]


def run_case(case):
    import os
    import h5py
    cfg = orc.configure()
    from pathlib import Path
    from pyspectral.rsr_reader import RelativeSpectralResponse
    plat, inst = case["plat"], case["inst"]
    listed = platforms.INSTRUMENTS.get(plat)
    low = inst.lower()
    ok = listed is None or any(x == low or platforms.DASH2SLASH.get(low) == x for x in listed)
    norm = (low if ok else listed[0]).replace("/", "").replace("-", "")
    named = case["how"] in ("names", "missing")
    path = os.path.join(cfg["rsr_dir"], "rsr_%s_%s.h5" % (norm, plat) if named else "any_name.hdf")
    enc = NAMES[case["kind"]]
    try:
        if case["how"] != "missing":
            with h5py.File(path, "w") as h:
                h.attrs["band_names"] = [b.encode() for b in case["bands"]] if case["kind"] in ("bytes", "np.bytes") else \
                    list(case["bands"])
                h.attrs["description"] = enc("text")
                if case["attrs"] == "full":
                    h.attrs["platform_name"] = enc(plat)
                    h.attrs["sensor"] = enc(inst)
                elif case["attrs"] == "old":
                    h.attrs["platform"], h.attrs["sat_number"] = enc("meteosat"), 9
                for b, x in case["bands"].items():
                    g = h.create_group(b)
                    _put(h, g, x["band"], PARTS, "f4")
                    if x["nd"]:
                        g.attrs["number_of_detectors"] = x["nd"]
                    for k, d in enumerate(x["dets"]):
                        if d["group"]:
                            _put(h, g.create_group("det-%d" % (k + 1)), d, d["own"], "f4")
        else:
            with h5py.File(os.path.join(cfg["rsr_dir"], "rsr_%s_%s.h5" % (norm + "x", plat)), "w") as h:
                h.attrs["description"] = "other file"
        if case["how"] == "both":
            for kw in (dict(filename=path, platform_name=plat), dict(filename=path, instrument=inst),
                       dict(filename=path, platform_name=plat, instrument=inst), dict(platform_name=plat), dict(instrument=inst), {}):
                try:
                    RelativeSpectralResponse(**kw)
                    return "accepted %r" % sorted(kw)
                except ValueError:
                    pass
            return None
        def read():
            if named:
                return RelativeSpectralResponse(plat, inst)
            return RelativeSpectralResponse(filename=path if case["how"] == "file" else Path(path))
        try:
            o = read()
            if case.get("again") and all((y if p in y["own"] else x["band"])[k] and len((y if "response" in y["own"] else x["band"])["rs"]) ==
                                         len((y if "wavelength" in y["own"] else x["band"])["wl"])
                                         for x in case["bands"].values() for y in x["dets"] for p, k in (("response", "rs"), ("wavelength", "wl"))):
                # converting one object has no effect on the next reader of the file
                with np.errstate(all="ignore"):
                    o.convert()
                o = read()
        except FileNotFoundError:
            return None if case["how"] == "missing" else "file not found"
        if case["how"] == "missing":
            return "a missing file was accepted"
    finally:
        for f in os.listdir(cfg["rsr_dir"]):
            os.remove(os.path.join(cfg["rsr_dir"], f))
    if list(o.band_names) != list(case["bands"]) or set(o.rsr.keys()) != set(case["bands"]):
        return "bands %r %r" % (o.band_names, list(o.rsr.keys()))
    if o.unit != "1e-6 m" or o.si_scale != 1e-6 or o.description != "text":
        return "unit %r scale %r description %r" % (o.unit, o.si_scale, o.description)
    if named and (o.platform_name, o.instrument) != (plat, norm):
        return "names %r" % ((o.platform_name, o.instrument),)
    if not named:
        wp = {"full": {"eos-2": "EOS-Aqua"}.get(plat, plat), "old": "Meteosat-9", "none": None}[case["attrs"]]
        wi = {"full": inst, "old": "seviri", "none": None}[case["attrs"]]
        if (o.platform_name, o.instrument) != (wp, wi):
            return "names %r, expected %r" % ((o.platform_name, o.instrument), (wp, wi))
    if o.rsr.instrument != o.instrument:
        return "container instrument %r" % (o.rsr.instrument,)
    for b, x in case["bands"].items():
        dets = ["det-%d" % (k + 1) for k in range(len(x["dets"]))]
        if sorted(o.rsr[b]) != sorted(dets):
            return "detectors of %s: %r" % (b, sorted(o.rsr[b]))
        intg = o.integral(b) if all(len(z["wavelength"]) == len(z["response"]) for z in o.rsr[b].values()) else None
        if intg is not None and set(intg) != set(dets):
            return "integrals of %s: %r" % (b, sorted(intg))
        for d, y in zip(dets, x["dets"]):
            src = lambda p: y if p in y["own"] else x["band"]
            r = o.rsr[b][d]
            e = conc.first(conc.close(r["response"], np.array(src("response")["rs"], "f4"), rtol=1e-6),
                           conc.close(r["wavelength"], np.array(src("wavelength")["wl"]) * src("wavelength")["scale"] * 1e6, rtol=1e-5),
                           conc.close(r["central_wavelength"], src("central_wavelength")["cw"]))
            if e:
                return "%s %s: %s" % (b, d, e)
            if intg is not None:
                e = conc.close(intg[d], orc.trapz(np.asarray(r["response"], float), np.asarray(r["wavelength"], float)), rtol=1e-4, atol=1e-5 * max(1, np.max(r["wavelength"])))
                if e:
                    return "integral of %s %s: %s" % (b, d, e)
