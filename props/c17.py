"""C17: instrument names against platforms."""
import z3

from dv import conc, core, loops
from dv.ioshims import mkworld
from dv.session import Contract
from dv.values import STR, SStr, apply_tr, strlit
from props import orc, platforms, sym

UNKNOWN = ("No-Such-Platform-1", "", "noaa-19")


def lo(s):
    return s.lower()


def norm(s):
    return s.lower().replace("/", "").replace("-", "")


def same(v, label, got, want):
    r = got == want if isinstance(got, SStr) else want == got if isinstance(want, SStr) else got == want
    v.ensure(label, r if isinstance(r, bool) else r.z)


def eqz(a, b):
    r = a == b if isinstance(a, SStr) else b == a if isinstance(b, SStr) else a == b
    return z3.BoolVal(r) if isinstance(r, bool) else r.z


def matches(listed, name):
    """name (lower case) is the listed instrument in slash or dash spelling"""
    alt = [z3.And(eqz(name, d), eqz(listed, s)) for d, s in platforms.DASH2SLASH.items()]
    return z3.Or(eqz(listed, name), *alt)


def reader_name(plat):
    """A platform of the shipped table, any instrument string."""
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.utils")
        inst = v.str("instrument")
        out = v.must(v.call(mod.check_and_adjust_instrument_name, plat, inst), "returns")
        listed = platforms.INSTRUMENTS.get(plat)
        if listed is None:
            same(v, plat + ": unknown platform: the instrument given", out, norm(inst))
            return
        if v.c.decide(z3.Or(*[matches(x, lo(inst)) for x in listed])):
            same(v, plat + ": one of the platform's instruments: kept", out, norm(inst))
        else:
            same(v, plat + ": wrong instrument: the platform's first one", out, norm(listed[0]))
    return f


def reader_any(kind):
    """Any table entry: a platform with one / two / three instruments of any name."""
    def f(v):
        w = mkworld()
        mod = w.load("pyspectral.utils")
        names = [v.str("listed%d" % k) for k in range(kind)]
        for k in range(kind):
            v.assume(z3.And(*[names[j].z != names[k].z for j in range(k)]))
        mod.INSTRUMENTS = sym.mkd({"P": names[0] if kind == 1 else loops.HOOKS.mklist(names)})
        inst = v.str("instrument")
        plat = v.str("platform")
        out = v.must(v.call(mod.check_and_adjust_instrument_name, plat, inst), "returns")
        if not v.c.decide(plat.z == strlit("P")):
            same(v, "unknown platform: the instrument given", out, norm(inst))
        elif v.c.decide(z3.Or(*[matches(x, lo(inst)) for x in names])):
            same(v, "one of the platform's instruments: kept", out, norm(inst))
        else:
            same(v, "wrong instrument: the platform's first one", out, norm(names[0]))
    return f


def identical(v):
    w = mkworld()
    mod = w.load("pyspectral.utils")
    a, b = v.str("a"), v.str("b")
    out = v.must(v.call(mod.are_instruments_identical, a, b), "returns")
    got = core.as_bool(out if isinstance(out, bool) else bool(out))
    v.ensure("same or dash spelling", got == matches(a, b))


def not_strings(v):
    w = mkworld()
    mod = w.load("pyspectral.utils")
    a = v.str("a")
    for n, (x, y) in enumerate(((a, None), (None, a), (1, a), (a, loops.HOOKS.mklist(["avhrr/1"])), (None, None))):
        v.must_raise(v.call(mod.are_instruments_identical, x, y), ValueError, "no string refused %d" % n)


def sensor(plat, kind=None):
    def f(v):
        w = mkworld(overrides={"pyspectral.config": {"get_config": lambda: sym.mkd({})}})
        mod = w.load("pyspectral.rayleigh")
        s = v.str("sensor")
        listed = platforms.INSTRUMENTS.get(plat)
        if kind is not None:
            listed = [v.str("listed%d" % k) for k in range(kind)]
            mod.INSTRUMENTS = sym.mkd({plat: listed[0] if kind == 1 else loops.HOOKS.mklist(listed)})
        out = v.call(mod.normalize_sensor, plat, s)
        strip = lambda x: x.replace("/", "")
        if listed is None:
            same(v, plat + ": unknown platform: the sensor given", v.must(out, "returns"), strip(s))
        elif v.c.decide(z3.Or(*[eqz(x, s) for x in listed])):
            same(v, plat + ": the platform's sensor: kept", v.must(out, "returns"), strip(s))
        elif len(listed) == 1:
            same(v, plat + ": wrong sensor: the platform's only one", v.must(out, "returns"), strip(listed[0]))
        else:
            v.must_raise(out, ValueError, plat + ": wrong sensor on a platform with several refused")
    return f


CONTRACTS = [Contract("are_instruments_identical", identical), Contract("are_instruments_identical[no strings]", not_strings)] + \
    [Contract("check_and_adjust_instrument_name[any platform with %d]" % k, reader_any(k)) for k in (1, 2, 3)] + \
    [Contract("normalize_sensor[any platform with %d]" % k, sensor("P", k)) for k in (1, 2, 3)]





def pick(names, fn):
    """One path per platform name."""
    def f(v):
        k = z3.Int("in:platform")
        v.c.inputs["platform"] = ("int", k)
        for n, p in enumerate(names[:-1]):
            if v.c.decide(k == n):
                return fn(p)(v)
        return fn(names[-1])(v)
    return f


ALL = sorted(platforms.INSTRUMENTS) + list(UNKNOWN)
for _g in range(0, len(ALL), 16):
    CONTRACTS.append(Contract("check_and_adjust_instrument_name[%s ... %s]" % (ALL[_g], ALL[_g:_g + 16][-1]),
                              pick(ALL[_g:_g + 16], reader_name)))
    CONTRACTS.append(Contract("normalize_sensor[%s ... %s]" % (ALL[_g], ALL[_g:_g + 16][-1]), pick(ALL[_g:_g + 16], sensor)))
ASSUMPTIONS = ["case mapping and replacement act character by character (characters outside ASCII uninterpreted)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    insts = sorted({x for t in platforms.INSTRUMENTS.values() for x in t}) + sorted(platforms.DASH2SLASH) + ["xyz", "modis-2"]
    insts += sorted(({x.replace("-", "") for x in insts} | {x.replace("-", "_") for x in insts} | {x.replace("/", "") for x in insts}) - set(insts))
    for p in list(platforms.INSTRUMENTS) + list(UNKNOWN):
        for i in insts:
            yield dict(p=p, i=i)
            yield dict(p=p, i=i.upper())
    for a in insts:
        for b in insts:
            yield dict(p=None, i=a, j=b)
    for k in range({"quick": 5000, "thorough": 5000, "search": 5000}[tier]):
        i = rng.choice(insts)
        i = "".join(c.upper() if rng.random() < 0.4 else c for c in i)
        if rng.random() < 0.3:
            i = i.replace("-", "/")
        if rng.random() < 0.1:
            i = rng.choice([" %s", "%s ", "%s\n"]) % i
        yield dict(p=rng.choice(sorted(platforms.INSTRUMENTS) + ["x"]), i=i)


def run_case(case):
    from pyspectral.utils import are_instruments_identical, check_and_adjust_instrument_name
    p, i = case["p"], case["i"]
    ident = lambda a, b: a == b or platforms.DASH2SLASH.get(b) == a
    if p is None:
        got = are_instruments_identical(i, case["j"])
        return None if bool(got) == ident(i, case["j"]) else "are_instruments_identical(%r, %r) = %r" % (i, case["j"], got)
    orc.configure()
    from pyspectral.rayleigh import normalize_sensor
    listed = platforms.INSTRUMENTS.get(p)
    want = norm(i) if listed is None or any(ident(x, i.lower()) for x in listed) else norm(listed[0])
    got = check_and_adjust_instrument_name(p, i)
    if got != want:
        return "check_and_adjust_instrument_name(%r, %r) = %r, expected %r" % (p, i, got, want)
    try:
        got = normalize_sensor(p, i)
    except ValueError:
        got = None
    want = i if listed is None or i in listed else listed[0] if len(listed) == 1 else None
    want = want.replace("/", "") if want is not None else None
    if got != want:
        return "normalize_sensor(%r, %r) = %r, expected %r" % (p, i, got, want)
