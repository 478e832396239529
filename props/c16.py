"""C16: band name resolution in the response container."""
import z3

from dv import conc, core, loops
from dv.ioshims import mkworld
from dv.loops import SDict
from dv.session import Contract
from dv.values import STR, SNum, SStr, strlit
from props import bandtab, orc, sym

KNOWN = z3.Function("c16:sensor", STR, z3.BoolSort())
ALIAS = z3.Function("c16:alias", STR, STR, z3.BoolSort())
NAME = z3.Function("c16:name", STR, STR, STR)
HAS = z3.Function("c16:has", STR, z3.BoolSort())
VAL = z3.Function("c16:val", STR, z3.RealSort())
GEN = "generic"


def table():
    return SDict("names", lambda s: z3.Or(s == strlit(GEN), KNOWN(s)),
                 lambda s: SDict("names of one sensor", lambda k: ALIAS(s, k), lambda k: SStr.atom(NAME(s, k))))


def resolve(inst, k):
    """(is there a value, the name it is stored under) as the property states it."""
    known = z3.Or(KNOWN(inst), inst == strlit(GEN))
    own = z3.And(known, ALIAS(inst, k))
    gen = ALIAS(strlit(GEN), k)
    name = z3.If(HAS(k), k, z3.If(own, NAME(inst, k), NAME(strlit(GEN), k)))
    ok = z3.Or(HAS(k), z3.If(own, HAS(NAME(inst, k)), z3.And(gen, HAS(NAME(strlit(GEN), k)))))
    return ok, name


def container(v, w, inst):
    mod = w.load("pyspectral.rsr_reader")
    d = mod.RSRDict(inst)
    d.update(SDict("content", lambda k: HAS(k), lambda k: SNum(VAL(k))))
    return mod, d


def lookup(how):
    def f(v):
        w = mkworld(overrides={"pyspectral.bandnames": {"BANDNAMES": table()}})
        inst, key = v.str("instrument"), v.str("key")
        mod, d = container(v, w, inst)
        n0 = d.version
        ok, name = resolve(inst.z, key.z)
        if how == "index":
            out = v.call(lambda: d[key])
            if not out.ok:
                v.must_raise(out, KeyError, "only a key error")
                v.ensure("fails only when the name does not resolve", z3.Not(ok))
            else:
                v.ensure("resolves", ok)
                v.ensure_el("value of the resolved name", v.must(out), VAL(name))
        else:
            dflt = object() if how == "default" else None
            out = v.must(v.call(lambda: d.get(key, dflt) if how == "default" else d.get(key)), "get never fails")
            if out is dflt:
                v.ensure("default only when the name does not resolve", z3.Not(ok))
            else:
                v.ensure("resolves", ok)
                v.ensure_el("value of the resolved name", out, VAL(name))
        v.ensure("frame: container unchanged", d.version == n0)
        k1 = v.str("other")
        inside = k1 in d
        v.ensure("frame: same content", z3.BoolVal(bool(inside)) == HAS(k1.z))
        v.ensure("frame: instrument unchanged", str(d.instrument) == str(inst))
    return f


def real(inst, key):
    """With the shipped table of names, any content."""
    def f(v):
        w = mkworld()
        mod, d = container(v, w, inst)
        out = v.call(lambda: d[key])
        cand = [key]
        if inst in bandtab.NAMES and key in bandtab.NAMES[inst]:
            cand.append(bandtab.NAMES[inst][key])
        elif key in bandtab.NAMES[GEN]:
            cand.append(bandtab.NAMES[GEN][key])
        for k in cand:
            if v.c.decide(HAS(strlit(k))):
                v.ensure_el("value of the resolved name", v.must(out, "returns"), VAL(strlit(k)))
                break
        else:
            v.must_raise(out, KeyError, "unresolved name refused")
    return f


REAL = [("modis", "20"), ("modis", "31"), ("seviri", "IR_039"), ("viirs", "M01"), ("viirs", "M12"), ("abi", "C07"), ("ahi", "B07"),
        ("avhrr-3", "3b"), ("avhrr/3", "3B"), ("fci", "vis_04"), ("olci", "Oa01"), ("slstr", "S1"), ("nosuch", "20"),
        ("nosuch", "zzz"), ("generic", "M01")]
CONTRACTS = [Contract("RSRDict[%s]" % h, lookup(h)) for h in ("index", "get", "default")] + \
    [Contract("shipped names[%s %s]" % x, real(*x)) for x in REAL]
ASSUMPTIONS = ["any table of band names in the symbolic contracts; the shipped table is compared with a transcription"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    allnames = sorted({x for t in bandtab.NAMES.values() for kv in t.items() for x in kv})
    # every shipped alias once
    for s in bandtab.NAMES:
        for k in bandtab.NAMES[s]:
            yield dict(inst=s, key=k, content=[bandtab.NAMES[s][k], bandtab.NAMES[GEN].get(k, "zz")])
    for k in bandtab.NAMES[GEN]:
        yield dict(inst="unknown", key=k, content=[bandtab.NAMES[GEN][k]])
    for n in range({"quick": 8000, "thorough": 15000, "search": 15000}[tier]):
        s = rng.choice(sorted(bandtab.NAMES) + ["unknown"])
        pool = sorted(bandtab.NAMES.get(s, {})) + rng.sample(allnames, 5) + ["nope"]
        key = rng.choice(pool)
        content = {rng.choice(allnames) for _ in range(rng.randint(0, 4))}
        for t in (s, GEN):
            if rng.random() < 0.5 and key in bandtab.NAMES.get(t, {}):
                content.add(bandtab.NAMES[t][key])
        if rng.random() < 0.3:
            content.add(key)
        yield dict(inst=s, key=key, content=sorted(content), falsy=rng.random() < 0.3)


FALSY = [{}, 0, "", ()]


def run_case(case):
    orc.configure()
    from pyspectral.rsr_reader import RSRDict
    d = RSRDict(case["inst"])
    for n, k in enumerate(case["content"]):
        d[k] = FALSY[n % len(FALSY)] if case.get("falsy") else (k, n)
    before = dict(d.items())
    k, inst = case["key"], case["inst"]
    N = bandtab.NAMES
    want = NO = object()
    if k in before:
        want = before[k]
    elif inst in N and k in N[inst]:
        want = before.get(N[inst][k], NO)
    elif k in N[GEN]:
        want = before.get(N[GEN][k], NO)
    try:
        got = d[k]
    except KeyError:
        got = NO
    if got != want:
        return "index: got %r, expected %r" % (got, want)
    s = object()
    for got, dflt in ((d.get(k, s), s), (d.get(k), None)):
        if (got is not dflt) if want is NO else (got != want):
            return "get: got %r, expected %r" % (got, dflt if want is NO else want)
    if dict(d.items()) != before or d.instrument != inst:
        return "container changed"
