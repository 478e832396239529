"""C14: band lookup by wavelength."""
import z3

from dv import conc, core, loops
from dv.core import modelled
from dv.ioshims import mkworld
from dv.loops import SDict
from dv.session import Contract
from dv.values import STR, SNum, SStr, rv, strlit
from props import bandtab, orc, sym

B = z3.Function("c14:band", STR, z3.BoolSort())
CW = z3.Function("c14:cw", STR, z3.RealSort())
OTHER = z3.Function("c14:cw2", STR, z3.RealSort())
KNOWN = z3.Function("c14:sensor", STR, z3.BoolSort())
ALIAS = z3.Function("c14:alias", STR, STR, z3.BoolSort())
NAME = z3.Function("c14:name", STR, STR, STR)


def zabs(x):
    return z3.If(x >= 0, x, -x)


def table():
    """Any table of standard names with a generic part."""
    return SDict("names", lambda s: z3.Or(s == strlit("generic"), KNOWN(s)),
                 lambda s: SDict("names of one sensor", lambda k: ALIAS(s, k), lambda k: SStr.atom(NAME(s, k))))


def std(sensor, k):
    def of(s):
        return z3.If(ALIAS(s, k), NAME(s, k), k)
    return z3.If(z3.Or(KNOWN(sensor), sensor == strlit("generic")), of(sensor), of(strlit("generic")))


def strz(x):
    return x.z if isinstance(x, SStr) else strlit(x)


def unbounded(how):
    def f(v):
        w = mkworld(overrides={"pyspectral.bandnames": {"BANDNAMES": table()}})
        sensor = v.str("sensor")
        wav, eps = v.num("wavelength"), v.num("epsilon")
        dets = lambda k: sym.mkd({"det-1": sym.mkd({"central_wavelength": SNum(CW(k))}),
                                  "det-2": sym.mkd({"central_wavelength": SNum(OTHER(k))})})
        rsr = SDict("rsr", lambda k: B(k), dets)
        k0, k9 = z3.Const("k0", STR), z3.Const("k9", STR)
        v.c.inputs["k0"] = ("str", k0)
        loops.note_key([k0])
        kw = {}
        e = eps.r
        if how == "default":
            e = rv("0.1")
        else:
            kw["epsilon"] = eps
        multi = core.FALSE
        if how == "multi":
            m = v.bool("multiple")
            kw["multiple_bands"], multi = m, m.z
        mod = w.load("pyspectral.utils")
        out = v.call(mod.get_bandname_from_wavelength, sensor, wav, rsr, **kw)

        def sel(k):
            d = zabs(CW(k) - wav.r)
            return z3.And(B(k), d < 2, d < e)
        kts = [t[0] for t in loops.keyterms() if len(t) == 1 and t[0].sort().eq(STR)]
        two = z3.Or(*[z3.And(sel(a), sel(b), a != b) for n, a in enumerate(kts) for b in kts[:n]])
        if not out.ok:
            v.must_raise(out, AttributeError, "only an ambiguity is refused")
            v.ensure("refused only if two bands match", two, exists=True)
            v.ensure("refused only when one band is wanted", z3.Not(multi))
            return
        r = v.must(out)
        if r is None:
            v.ensure("nothing returned only if no band matches", z3.Not(sel(k0)))
            return
        if isinstance(r, (str, SStr)):
            v.ensure("name of a matching band", z3.Or(*[z3.And(sel(k), strz(r) == std(strz(sensor), k)) for k in kts]),
                     exists=True)
            v.ensure("the only match", z3.Not(two))
            v.ensure("every match is that band", z3.Implies(sel(k0), strz(r) == std(strz(sensor), k0)))
            return
        if not isinstance(r, loops.VList) or not r.layers or list.__len__(r):
            raise core.Unsupported("shape of the returned list")
        v.ensure("several names only when allowed", multi)
        v.ensure("several names only if several match", two, exists=True)
        conds = [l.at([k0]) for l in r.layers]
        v.ensure("exactly the matching bands", z3.Or(*[c for c, _ in conds]) == sel(k0))
        for c, val in conds:
            v.ensure("their standard names", z3.Implies(z3.And(sel(k0), c), strz(val()) == std(strz(sensor), k0)))
    return f


def reader(w, sensor, rsr):
    """The container's own lookup method on a loaded container."""
    mod = w.load("pyspectral.rsr_reader")
    cls = mod.RelativeSpectralResponse
    obj = cls.__new__(cls)
    obj.instrument, obj.rsr = sensor, mod.RSRDict(sensor)
    obj.rsr.update(rsr)
    return obj.get_bandname_from_wavelength


def fixed(bands, sensor, multiple, via="function"):
    """Given band names, any central wavelengths: results in band order."""
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.utils")
        cws = {b: v.num("cw_" + b) for b in bands}
        rsr = sym.mkd({b: sym.mkd({"det-1": sym.mkd({"central_wavelength": cws[b]})}) for b in bands})
        wav, eps = v.num("wavelength"), v.num("epsilon")
        if via == "reader":
            out = v.call(reader(w, sensor, rsr), wav, epsilon=eps, multiple_bands=multiple)
        else:
            out = v.call(mod.get_bandname_from_wavelength, sensor, wav, rsr, epsilon=eps, multiple_bands=multiple)
        hits = []
        for b in bands:
            d = zabs(cws[b].r - wav.r)
            if v.c.decide(z3.And(d < 2, d < eps.r)):
                hits.append(bandtab.standard(sensor, b))
        if len(hits) > 1 and not multiple:
            v.must_raise(out, AttributeError, "ambiguity refused")
            return
        r = v.must(out, "returns")
        want = None if not hits else hits[0] if len(hits) == 1 else hits
        got = list(list.__iter__(r)) if isinstance(r, list) else r
        v.ensure("matching bands in order", got == want)
    return f


FIX = [(("ch1", "ch2", "ch3"), "avhrr-3", True), (("ch1", "ch2", "ch3"), "avhrr-3", False),
       (("1", "2", "30"), "modis", True), (("M1", "I1", "DNB"), "viirs", True), (("VIS0.6", "IR_108", "x"), "seviri", True),
       (("ch1", "zz", "ch5"), "no-such-sensor", True), (("ch1", "zz"), "no-such-sensor", False)]
CONTRACTS = [Contract("any bands[%s]" % h, unbounded(h)) for h in ("default", "epsilon", "multi")] + \
    [Contract("band order[%s %s%s]" % (s, "+".join(b), " multiple" if m else ""), fixed(b, s, m)) for b, s, m in FIX] + \
    [Contract("container lookup[%s %s%s]" % (s, "+".join(b), " multiple" if m else ""), fixed(b, s, m, "reader"))
     for b, s, m in FIX[:4]]
ASSUMPTIONS = ["the name of a band is compared with a transcription of the standard names of bandnames.py; the unbounded "
               "contracts hold for any table of names"]


def cases(rng, tier):
    sensors, gen = sorted(bandtab.NAMES), sorted(bandtab.NAMES["generic"])
    for k in range({"quick": 8000, "thorough": 15000, "search": 15000}[tier]):
        s = rng.choice(sensors + ["unknown-sensor"])
        pool = sorted(bandtab.NAMES.get(s, bandtab.NAMES["generic"])) + ["zz", "ch1", "M1"]
        pool = sorted(set(pool) | set(rng.sample(gen, 3)))
        bands = rng.sample(pool, min(len(pool), rng.randint(0, 6)))
        c = rng.uniform(0.4, 12)
        step = rng.choice([0.05, 0.1, 0.5, 1.0])
        yield dict(sensor=s, bands={b: c + step * rng.randint(-3, 3) for b in bands}, wl=c + rng.choice([0, 0.02, -0.07]),
                   eps=rng.choice([None, 0.1, 0.05, 0.5, 3.0, 10.0]), multi=rng.random() < 0.6,
                   via=rng.choice(["util", "reader"]))


def run_case(case):
    orc.configure()
    bands = case["bands"]
    rsr = {b: {"det-2": {"central_wavelength": -1.0}, "det-1": {"central_wavelength": c}} for b, c in bands.items()}
    kw = {} if case["eps"] is None else {"epsilon": case["eps"]}
    if case["multi"]:
        kw["multiple_bands"] = True
    eps = 0.1 if case["eps"] is None else case["eps"]
    want = [bandtab.standard(case["sensor"], b) for b, c in bands.items() if abs(c - case["wl"]) < min(2.0, eps)]
    try:
        if case["via"] == "util":
            from pyspectral.utils import get_bandname_from_wavelength
            got = get_bandname_from_wavelength(case["sensor"], case["wl"], rsr, **kw)
        else:
            from pyspectral.rsr_reader import RelativeSpectralResponse, RSRDict
            o = RelativeSpectralResponse.__new__(RelativeSpectralResponse)
            o.instrument, o.rsr = case["sensor"], RSRDict(case["sensor"])
            o.rsr.update(rsr)
            got = o.get_bandname_from_wavelength(case["wl"], **kw)
    except AttributeError:
        return None if len(want) > 1 and not case["multi"] else "refused although %d bands match" % len(want)
    if len(want) > 1 and not case["multi"]:
        return "ambiguity not refused: %r of %r" % (got, want)
    exp = None if not want else want[0] if len(want) == 1 else want
    return None if got == exp else "got %r, expected %r" % (got, exp)
