"""C31: which bands get a reflectance calculator, and its cached look-up table."""
import z3

from dv import conc, core
from dv.ioshims import FS, basename, dirname, pjoin, s_parts
from dv.session import Contract
from dv.values import El, SArr, SStr, rv
from props import orc, sym
from props.c20 import pick, zs

LO, HI = rv("3.5"), rv("3.95")


class Dets(type(sym.mkd({}))):
    """Detector name -> record, also for a detector whose name is any text."""

    def __getitem__(self, k):
        if isinstance(k, SStr) and k.concrete() is None:
            return super().__getitem__("det-1" if core.ctx().decide(k.z == zs("det-1")) else "any")
        return super().__getitem__(k)


class World:
    def __init__(self, v, opts=None, dets=("det-1",), cw=None, band="ch20"):
        self.v = v
        n = v.dim("nrsr", lo=2)
        self.cw = cw if cw is not None else v.num("cw", gt=0)
        rec = {"det-1": sym.band(v, "b1", n, central=self.cw)[0]}
        for d in dets:
            if not isinstance(d, SStr) and d not in rec:
                rec[d] = sym.band(v, d, n)[0]
        other = sym.band(v, "o", n)
        self.ow = other[3]
        if any(isinstance(d, SStr) for d in dets):
            rec = {"det-1": rec["det-1"], "any": sym.band(v, "any", n)[0]}
        rsr = sym.mkd({band: Dets(rec), "M15": sym.mkd({"det-1": other[0]})})
        self.rsr = rsr
        self.fs = FS(files_only=True)
        nl = v.dim("nlut", lo=1, hi=3000)
        self.files = {}
        self.loads, self.saved = [], []
        tb = SArr((nl,), lambda i: El(z3.ToReal(1500 + i) / 10), "f8", "numpy")
        rad = v.arr("lut", (nl,), where=lambda r, i: r > 0)

        def load(p, *a, **k):
            self.loads.append(p)
            self.table = sym.mkd({"tb": tb, "radiance": rad})
            return self.table

        def savez(p, *a, **k):
            self.saved.append((p, k))
            self.fs.set(p, True)
        w, self.calls = sym.rsr_world(rsr, fs=self.fs, np_extra={"load": load, "savez": savez},
                                      overrides={"pyspectral.config": {"get_config": lambda: sym.mkd(dict(opts or {}))}})
        self.mod = w.load("pyspectral.near_infrared_reflectance")
        self.flux = v.num("flux", gt=0)

    def make(self, plat, inst, band, **kw):
        return self.v.call(self.mod.Calculator, plat, inst, band, solar_flux=self.flux, **kw)


def gate_name(inst, name, band, det="det-1"):
    def f(v):
        w = World(v, {"tb2rad_dir": "/lutdir"}, dets=("det-1", det), band=band)
        inside = v.c.decide(z3.And(w.cw.r >= LO, w.cw.r <= HI))
        out = w.make("Plat-A", inst, name, **({} if det == "det-1" else {"detector": det}))
        finish(v, w, inside, out, band)
    return f


def finish(v, w, inside, out, band):
    if inside:
        calc = v.must(out, "a band within the window is accepted")
        v.ensure("band", calc.bandname == band)
    else:
        v.must_raise(out, NotImplementedError, "a band outside the window is refused")
        v.ensure("refused before any table is read or written", not w.loads and not w.saved)


def gate_wavelength(inst, band):
    """A band given by wavelength: the wavelength itself decides; the band is the one found for it (C11)."""
    def f(v):
        w = World(v, {"tb2rad_dir": "/lutdir"}, band=band)
        q = v.num("band", gt=0)
        v.assume(z3.And(q.r - w.cw.r < rv("0.1"), w.cw.r - q.r < rv("0.1"), z3.Or(w.ow.r - q.r > 1, q.r - w.ow.r > 1)))
        inside = v.c.decide(z3.And(q.r >= LO, q.r <= HI))
        finish(v, w, inside, w.make("Plat-A", inst, q), band)
    return f


def expect_table(v, w, calc, path, existed, label=""):
    """The one file read is `path`; written exactly when it was not there."""
    v.ensure("the table read belongs to the calculator" + label, len(w.loads) == 1 and zs(w.loads[0]) == zs(path))
    v.ensure("the calculator uses that table" + label, calc.lut is w.table)
    if existed:
        v.ensure("an existing table is reused unchanged" + label, not w.saved)
    else:
        v.ensure("a missing table is created" + label, len(w.saved) == 1 and zs(w.saved[0][0]) == zs(path) and set(w.saved[0][1]) == {"tb", "radiance"})


def lut_name(plat, inst, band, det):
    s = SStr(["tb2rad_lut_"]) + plat.lower() + "_" + inst.lower().replace("/", "") + "_" + band.lower()
    if core_bool(None, det != "det-1"):
        s = s + "_" + det
    return s + ".npz"


def cache_default(inst, name, band, anydet, hasdir):
    """No file name configured: the name follows from platform, instrument, band and detector."""
    def f(v):
        cw = v.num("cw", lo=LO, hi=HI)
        d = v.str("tb2rad_dir")
        det = v.str("detector") if anydet else "det-1"
        w = World(v, {"tb2rad_dir": d} if hasdir else {}, dets=("det-1", det), cw=cw, band=band)
        plat = v.str("platform")
        if not hasdir:
            import tempfile
            d = w.mod.tempfile.gettempdir()
        path = pjoin(d, lut_name(plat, SStr([inst]), band, det))
        existed = v.c.decide(w.fs.exists_z(path))
        calc = v.must(w.make(plat, inst, name, **({"detector": det} if anydet else {})), "constructor returns")
        expect_table(v, w, calc, path, existed)
        v.ensure("responses of this platform and instrument", len(w.calls) == 1 and zs(w.calls[0][0]) == zs(plat) and zs(w.calls[0][1]) == zs(inst))
        # a second calculator finds the table of the first
        n = len(w.saved)
        calc2 = v.must(w.make(plat, inst, name, **({"detector": det} if anydet else {})), "second constructor returns")
        v.ensure("created at most once", len(w.saved) == n)
        v.ensure("same table again", len(w.loads) == 2 and zs(w.loads[1]) == zs(path))
    return f


def cache_config(how):
    """File names configured for the platform and instrument."""
    def f(v):
        cw = v.num("cw", lo=LO, hi=HI)
        d = v.str("tb2rad_dir")
        name = v.str("lutname")
        lut = {"one": name, "band": sym.mkd({"other": "x.npz", "ch2": "x2.npz", "h20": "x3.npz", "ch20a": "x4.npz", "ch20": name, "ch201": "x5.npz"}), "lower-case band": sym.mkd({"ir3.9": name}), "band missing": sym.mkd({"other": "x.npz", "ch2": "x2.npz", "ch20a": "x3.npz"}),
               "no entry": None}[how]
        band = "IR3.9" if how == "lower-case band" else "ch20"
        sub = sym.mkd({"something": "else"} if lut is None else {"tb2rad_lut_filename": lut})
        w = World(v, {"tb2rad_dir": d, "Plat-A-instra": sub, "Plat-B-instra": sym.mkd({"tb2rad_lut_filename": "wrong.npz"})}, cw=cw, band=band)
        v.assume(z3.Not(zs(name) == SStr([""]).z))
        if how in ("band missing", "no entry"):
            path = pjoin(d, lut_name(SStr(["Plat-A"]), SStr(["instra"]), band, "det-1"))
        else:
            path = name if core_bool(v, name.endswith(".npz")) else name + ".npz"
            if not v.c.decide(w.fs.exists_z(dirname(path))):
                path = pjoin(d, basename(path))
        existed = v.c.decide(w.fs.exists_z(path))
        calc = v.must(w.make("Plat-A", "instra", band), "constructor returns")
        expect_table(v, w, calc, path, existed)
    return f


def core_bool(v, b):
    return b if isinstance(b, bool) else core.ctx().decide(core.as_bool(b))


CONTRACTS = [Contract("gate[%s %s%s]" % (a[0], a[1], "" if len(a) < 4 else " " + a[3]), gate_name(*a)) for a in
             [("instra", "ch20", "ch20"), ("seviri", "IR_039", "IR3.9"), ("instra", "ch20", "ch20", "det-2")]] + \
    [Contract("gate[wavelength, %s]" % a[0], gate_wavelength(*a)) for a in [("instra", "ch20"), ("seviri", "IR3.9")]] + \
    [Contract("cache[%s %s %s%s]" % (a[0], a[1], "any detector" if a[3] else "det-1", "" if a[4] else " no directory configured"), cache_default(*a)) for a in
     [("instra", "ch20", "ch20", False, True), ("avhrr/3", "ch3b", "ch3b", False, True), ("viirs", "M12", "M12", True, True),
      ("instra", "ch20", "ch20", True, False)]] + \
    [Contract("cache[configured file: %s]" % h, cache_config(h)) for h in ("one", "band", "lower-case band", "band missing", "no entry")]
ASSUMPTIONS = ["RelativeSpectralResponse enters by its contract (C18)", "np.savez writes the file it is given and np.load reads it back",
               "the content of a created table is C05's contract", "no other process creates or removes the table during construction"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 700, "thorough": 800, "search": 1500}[tier]):
        cw = rng.choice([3.5, 3.95, 3.7, 3.499, 3.951, 3.9499, 3.5001, rng.uniform(3.3, 4.2), rng.uniform(3.5, 3.95), 11.0, 0.6])
        plat, inst = rng.choice([("Suomi-NPP", "viirs"), ("PlatA", "instra"), ("Sat_X", "avhrr/3"), ("PlatA", "seviri"), ("Sat_X", "instra")])
        yield dict(plat=plat, inst=inst,
                   band=rng.choice(["ch20", "IR3.9", "M12", "B_x"]), cw=cw, det=rng.choice(["det-1", "det-1", "det-2", "det-2", "det-%d" % rng.randint(2, 16), "det-10", "det-11"]),
                   how=rng.choice(["name", "name", "wl"]), off=rng.choice([0.0, 0.05, -0.05, rng.uniform(-0.09, 0.09)]),
                   conf=rng.choice(["none", "none", "file", "bare", "dict", "lower", "dictmissing", "nodir", "notb2rad"]),
                   exists=rng.random() < 0.4, twice=rng.random() < 0.5, dcw=rng.choice([0.0, 0.01, -0.02, 0.3, -0.3]))


def run_case(case):
    import os
    import tempfile
    import numpy as np
    wl = np.linspace(case["cw"] - 0.3, case["cw"] + 0.3, 5)
    r1, r2 = np.array([0, .5, 1, .5, 0]), np.array([0, .1, .3, 1, 0])
    wide = (np.linspace(20, 22, 5), r1, 21.0)
    with conc.scratchdir() as d:
        lutd = os.path.join(d, "luts")
        os.mkdir(lutd)
        conf = dict(tb2rad_dir=lutd)
        inst, plat, band = case["inst"], case["plat"], case["band"]
        instfile = inst.lower().replace("/", "")
        own = os.path.join(d, "own")
        os.mkdir(own)
        det = "" if case["det"] == "det-1" else "_" + case["det"]
        path = os.path.join(lutd, "tb2rad_lut_%s_%s_%s%s.npz" % (plat.lower(), instfile, band.lower(), det))
        key = plat + "-" + inst
        cfn = {"file": "t1.npz", "bare": "t1", "nodir": "t2.npz"}.get(case["conf"])
        if case["conf"] == "nodir":
            conf[key] = {"tb2rad_lut_filename": os.path.join(d, "missing", cfn)}
            path = os.path.join(lutd, cfn)
        elif cfn:
            conf[key] = {"tb2rad_lut_filename": os.path.join(own, cfn)}
            path = os.path.join(own, "t1.npz")
        near = {k: os.path.join(own, "n%d.npz" % i) for i, k in enumerate(("zz", band[:-1], band[1:], band + "x", band[0]))}
        if case["conf"] in ("dict", "lower"):
            conf[key] = {"tb2rad_lut_filename": {**near, "zz": os.path.join(own, "zz.npz"), band if case["conf"] == "dict" else band.lower(): os.path.join(own, "b1.npz")}}
            path = os.path.join(own, "b1.npz")
        elif case["conf"] == "dictmissing":
            conf[key] = {"tb2rad_lut_filename": near}
        old_tmp = tempfile.tempdir
        if case["conf"] == "notb2rad":
            tempfile.tempdir = lutd
        with orc.rsr_files({(plat, instfile): {band: [(wl, r1, case["cw"])] + [(wl, r2, case["cw"] + (case.get("dcw", 0.0) if case["how"] == "name" else 0.0))] * max(1, int(case["det"][4:]) - 1), "wide": [wide]}}):
            from pyspectral import near_infrared_reflectance as nir
            orig = nir.get_config
            base = orig()

            def get_config():
                c = dict(base)
                c.update(conf)
                if case["conf"] == "notb2rad":
                    c.pop("tb2rad_dir", None)
                return c
            nir.get_config = get_config
            try:
                tab = {"tb": 150 + 0.1 * np.arange(2100), "radiance": 1.0 + np.arange(2100.0)}
                if case["exists"]:
                    np.savez(path, **tab)
                before = {p: open(os.path.join(q, p), "rb").read() for q, _, fs in os.walk(d) for p in fs}
                w = case["cw"] + (case["off"] if case["how"] == "wl" else 0)
                if case["how"] == "wl":
                    ok = 3.5 <= w <= 3.95
                    arg = w
                else:
                    w = case["cw"]
                    arg = band
                    ok = 3.5 <= w <= 3.95
                if case["how"] == "name" and w != float(np.float32(w)) and min(abs(w - 3.5), abs(w - 3.95)) < 1e-5:
                    raise conc.Skip("single precision central wavelength at the edge")
                mk = lambda: nir.Calculator(plat, inst, arg, detector=case["det"], solar_flux=2.0)
                try:
                    calc = mk()
                except NotImplementedError:
                    calc = None
                after = {p: open(os.path.join(q, p), "rb").read() for q, _, fs in os.walk(d) for p in fs}
                if (calc is not None) != ok:
                    return "band at %r %s" % (w, "refused" if calc is None else "accepted")
                new = set(after) - set(before)
                if calc is None:
                    return "files %s written although refused" % new if new else None
                if new != (set() if case["exists"] else {os.path.basename(path)}) or not os.path.exists(path):
                    return "files created %s, expected table %s" % (sorted(new), path)
                if any(after[p] != before[p] for p in before):
                    return "an existing file was changed"
                got = np.asarray(calc.lut["radiance"])
                if case["exists"]:
                    if not np.array_equal(got, tab["radiance"]):
                        return "the existing table was not used"
                else:
                    r = r1 if case["det"] == "det-1" else r2
                    x = wl.astype("f4").astype(float) * 1e-6
                    want = orc.trapz(orc.planck(x.tolist(), [250.0], True)[0] * r, x) / orc.trapz(r, x)
                    e = conc.close(got[1000], want, rtol=1e-4)
                    if e:
                        return "table content: " + e
                if case["twice"]:
                    c2 = mk()
                    again = {p: open(os.path.join(q, p), "rb").read() for q, _, fs in os.walk(d) for p in fs}
                    if again != after:
                        return "a second calculator changed files"
                    if not np.array_equal(np.asarray(c2.lut["radiance"]), got):
                        return "a second calculator uses another table"
            finally:
                nir.get_config = orig
                tempfile.tempdir = old_tmp
    return None
