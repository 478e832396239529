"""C21: atmospheric tables are downloaded exactly when needed, from and to the right place."""
import os

import z3

from dv import conc, core, loops
from dv.ioshims import FS, Net, expanduser, mkworld, pjoin, s_parts
from dv.loops import SymList, keyterms, note_key
from dv.session import Contract
from dv.values import STR, SStr, strlit
from props import cli, net, orc, sym
from props.c20 import effects, pick, zs

TYPES = ["antarctic_aerosol", "continental_average_aerosol", "continental_clean_aerosol", "continental_polluted_aerosol",
         "desert_aerosol", "marine_clean_aerosol", "marine_polluted_aerosol", "marine_tropical_aerosol", "rayleigh_only",
         "rural_aerosol", "urban_aerosol"]
ATM = ["subarctic summer", "subarctic winter", "midlatitude summer", "midlatitude winter", "tropical", "us-standard"]


def fname(t):
    return {"rayleigh_only": "no_aerosol"}.get(t, t)


class Types(SymList):
    """Some or all aerosol types, each at most once, in any order."""

    def __init__(self, mem):
        super().__init__(STR, mem, SStr.atom, "aerosol types")

    def __contains__(self, x):
        return core.ctx().decide(self.mem(zs(x)))


def known(k):
    return z3.Or(*[k == strlit(t) for t in TYPES])


def world(v, good=True, argv=None):
    fs = FS(files_only=True)
    rd = expanduser(v.str("rayleigh_dir"))
    conf = {"rayleigh_dir": rd}
    allow = pick(v, "download_from_internet", ["absent", "yes", "no"])
    if allow != "absent":
        conf["download_from_internet"] = allow == "yes"
    n = Net(fs)
    n.good, n.length = good, True
    w = mkworld(overrides={"pyspectral.config": {"get_config": lambda: sym.mkd(conf)}}, fs=fs, net=n)
    if argv is not None:
        w.shims["argparse"] = cli.module(argv)
        w.load("pyspectral.rayleigh")
        return fs, rd, allow == "yes", w, w.load("pyspectral.utils")
    return fs, rd, allow == "yes", w.load("pyspectral.rayleigh"), w.load("pyspectral.utils")


def url_ok(v, z, t):
    """The address of a type: the published prefix and the type's own file name."""
    from dv.values import _LITS
    hits = [s for s, lit in _LITS.items() if s.startswith("https://") and s.endswith("/pyspectral_atm_correction_luts_%s.tgz" % fname(t))]
    return z3.Or(*[z == strlit(s) for s in hits]) if hits else core.FALSE


def one_download(v, tag, evs, rd, a, guard):
    """evs: what happened for the type a."""
    k = zs(a)
    evs = [e for e in evs if e[0] not in ("exists?", "isfile?", "open-read", "warn")]
    g = [e for e in evs if e[0] == "http-get"]
    x = [e for e in evs if e[0] == "extracted"]
    imp = lambda c: z3.Implies(guard, c)
    v.ensure(tag + ": one request per type", imp(z3.BoolVal(len(g) == 1)))
    v.ensure(tag + ": unpacked once", imp(z3.BoolVal(len(x) == 1)))
    d = pjoin(rd, a)
    for e in g:
        for t in TYPES:
            v.ensure(tag + ": own address", imp(z3.Implies(k == strlit(t), url_ok(v, zs(e[1]), t))))
    for e in x:
        v.ensure(tag + ": into its own directory", imp(zs(e[2]) == zs(d)))
    for e in evs:
        if e[0] == "mkdir":
            v.ensure(tag + ": its own directory made", imp(z3.Or(zs(e[1]) == zs(d), zs(e[1]) == zs(rd))))
    order = [e[0] for e in evs]
    if "mkdir" in order and "open-write" in order:
        v.ensure(tag + ": directory made before writing", imp(z3.BoolVal(order.index("mkdir") < order.index("open-write"))))


def all_downloads(v, tag, evs, rd, sel, n0=0):
    """Exactly the types with sel(k) are downloaded, each once."""
    k = z3.Const("in:some type", STR)
    v.c.inputs["type"] = ("str", k)
    v.assume(known(k))
    note_key([k])
    evs = [e for e in evs if e[0] not in ("exists?", "isfile?", "open-read", "warn")]
    lps = [e for e in evs if e[0] == "loop" and any(x[0] == "http-get" for g, y in e[3] for x in y)]
    rest = [e for e in evs if e[0] != "loop"]
    v.ensure(tag + ": nothing else happens", z3.BoolVal(not rest))
    if not lps:
        v.ensure(tag + ": nothing needed", z3.Not(sel(k)))
        return
    v.ensure(tag + ": every type visited once", z3.BoolVal(len(lps) == 1))
    _, K, mem, br = lps[0]
    pr = list(zip(K, [k]))
    hit = []
    for guard, ev in br:
        c = z3.substitute(z3.And(mem, guard), *pr)
        ev = [tuple(loops.subst(y, pr) for y in e) for e in ev]
        if any(x[0] == "http-get" for x in ev):
            hit.append(c)
            one_download(v, tag, ev, rd, SStr.atom(k), c)
        else:
            v.ensure(tag + ": nothing written for the others", z3.Implies(c, z3.BoolVal(not [
                e for e in ev if e[0] not in ("exists?", "isfile?", "open-read", "warn")])))
    v.ensure(tag + ": exactly the needed types", z3.Or(*hit) == sel(k))


def listed(v, given, rayl=None, util=None):
    """The requested types as the code sees them. -> (argument, membership)"""
    everything = Types(known)
    for m in (rayl, util):
        if m is not None and hasattr(m, "AEROSOL_TYPES"):
            v.ensure("the supported types", sorted(str(x) for x in m.AEROSOL_TYPES) == TYPES)
            m.AEROSOL_TYPES = everything
    if given == "some":
        M = z3.Function("in:requested", STR, z3.BoolSort())
        mem = lambda k: z3.And(M(k), known(k))
        one = z3.Const("in:one of them", STR)       # a list without types means all types (the other contract)
        note_key([one])
        v.assume(mem(one))
        return Types(mem), mem
    return None, known


def dry_kw(dry):
    """Not a dry run: the default of the argument."""
    return {"dry_run": True} if dry else {}


def plain(given):
    def f(v):
        fs, rd, allowed, mod, ut = world(v)
        arg, mem = listed(v, given)
        dry = v.c.decide(z3.Bool("in:dry_run"))
        v.must(v.call(ut.download_luts, aerosol_types=arg, **dry_kw(dry)), "returns")
        if dry:
            v.ensure("dry run fetches and writes nothing", not [e for e in v.c.events if e[0] != "loop" and e in effects(v)] and
                     not [x for e in v.c.events if e[0] == "loop" for g, y in e[3] for x in y if x[0] not in ("exists?", "isfile?")])
        else:
            all_downloads(v, "download_luts", v.c.events, rd, mem)
    return f


def concrete(v, arg, kw, want, rayl_dir, ut, tag):
    """Finite requests, spelled in every accepted way; the tables are downloaded one after the other."""
    n0 = len(v.c.events)
    v.must(v.call(ut.download_luts, *arg, **kw), "returns")
    ev = v.c.events[n0:]
    g = [e for e in ev if e[0] == "http-get"]
    x = [e for e in ev if e[0] == "extracted"]
    v.ensure(tag + ": one request per type", len(g) == len(want) and len(x) == len(want))
    for t in want:
        v.ensure(tag + ": %s from its address" % t, z3.Or(*[url_ok(v, zs(e[1]), t) for e in g]))
        v.ensure(tag + ": %s into its directory" % t, z3.Or(*[zs(e[2]) == zs(pjoin(rayl_dir, t)) for e in x]))


def spelled(v):
    fs, rd, allowed, mod, ut = world(v)
    ml = loops.HOOKS.mklist
    how = pick(v, "how", ["none", "str", "list", "tuple", "set", "types"])
    if how == "none":
        concrete(v, (), {}, TYPES, rd, ut, "all types")
    elif how == "str":
        concrete(v, (), dict(aerosol_type="rayleigh_only"), ["rayleigh_only"], rd, ut, "single type")
    elif how == "list":
        concrete(v, (), dict(aerosol_type=ml(["desert_aerosol", "urban_aerosol"])), ["desert_aerosol", "urban_aerosol"], rd, ut, "list")
    elif how == "tuple":
        concrete(v, (), dict(aerosol_type=("rural_aerosol",)), ["rural_aerosol"], rd, ut, "tuple")
    elif how == "set":
        concrete(v, (), dict(aerosol_type={"rural_aerosol", "desert_aerosol"}), ["desert_aerosol", "rural_aerosol"], rd, ut, "set")
    else:
        concrete(v, (ml(["desert_aerosol", "rayleigh_only"]),), {}, ["desert_aerosol", "rayleigh_only"], rd, ut, "types")
    v.must(v.call(ut.download_luts, dry_run=True), "returns")


def outdated(v, fs, rd, ut, a):
    """Version file of type k (one of the known ones) differs from the required version."""
    a = s_parts(a) if not z3.is_expr(a) else SStr.atom(a)
    k = a.z
    cases = []
    for t in TYPES:
        rec = ut.ATM_CORRECTION_LUT_VERSION[t]
        p = pjoin(pjoin(rd, a), str(rec["filename"]))
        ex = fs.EX(zs(p))
        up = z3.And(ex, SStr.atom(z3.Function("fs_rawline@0", STR, STR)(zs(p))).strip().z == strlit(str(rec["version"])))
        up0 = z3.And(z3.Not(ex), z3.BoolVal(str(rec["version"]) == "v0.0.0"))
        cases.append(z3.And(k == strlit(t), z3.Not(z3.Or(up, up0))))
    return z3.Or(*cases)


def check(given, script=False):
    def f(v):
        argv = {}
        fs, rd, allowed, mod, ut = world(v, argv=argv if script else None)
        EX0 = fs.EX
        arg, mem = listed(v, given, mod.load("pyspectral.rayleigh") if script else mod, ut)
        if given == "empty":
            arg = loops.HOOKS.mklist([])
        dry = v.c.decide(z3.Bool("in:dry_run"))
        kw = dry_kw(dry)
        if given != "all":
            kw["aerosol_types"] = arg
        if script:
            if dry:
                argv["-d"] = True
                argv["--verbose"] = True
            if given != "all":
                argv["--aerosol_types" if v.c.decide(z3.Bool("in:long option")) else "-a"] = arg
            v.must(v.call(mod.script, "download_atm_correction_luts"), "returns")
        else:
            v.must(v.call(mod.check_and_download, **kw), "returns")
        fs.EX = EX0

        def real(evs):
            for e in evs:
                if e[0] == "loop":
                    for g, y in e[3]:
                        yield from real(y)
                elif e[0] not in ("exists?", "isfile?", "open-read", "warn"):
                    yield e
        if dry:
            v.ensure("dry run fetches and writes nothing", not list(real(v.c.events)))
            return
        evs = [e for e in v.c.events if e[0] != "loop" or list(real([e]))]
        all_downloads(v, "check_and_download", evs, rd, lambda k: z3.And(mem(k), outdated(v, fs, rd, ut, k)))
    return f


def base(v):
    """RayleighConfigBaseClass: refuses unknown names, compares versions, downloads nothing."""
    fs, rd, allowed, mod, ut = world(v)
    a, m = v.str("aerosol"), v.str("atmosphere")
    out = v.call(mod.RayleighConfigBaseClass, a, m)
    good = z3.And(known(a.z), z3.Or(*[m.z == strlit(t) for t in ATM]))
    if not v.c.decide(good):
        v.must_raise(out, AttributeError, "unknown names refused")
    else:
        obj = v.must(out, "returns")
        v.ensure("up to date iff the version is the required one",
                 core.as_bool(obj.lutfiles_version_uptodate) == z3.Not(outdated(v, fs, rd, ut, a.z)))
        v.ensure("downloading as configured", core.as_bool(obj.do_download) == z3.BoolVal(allowed))
    v.ensure("nothing fetched or written", not effects(v))


def correction(v):
    """Constructing a correction: one download of its own tables, only when outdated and allowed."""
    fs, rd, allowed, mod, ut = world(v)
    EX0 = fs.EX
    a, m = v.str("aerosol"), v.str("atmosphere")
    kw = dict(aerosol_type=a, atmosphere=m)
    how = pick(v, "how", ["both", "defaults"])
    if how == "defaults":
        kw = {}
        a, m = SStr(["marine_clean_aerosol"]), SStr(["us-standard"])
    else:
        v.assume(z3.And(known(a.z), z3.Or(*[m.z == strlit(t) for t in ATM])))
    obj = v.must(v.call(mod.Rayleigh, "NOAA-20", "viirs", **kw), "returns")
    fs.EX = EX0
    d = pjoin(rd, a)
    want = pjoin(d, SStr(("rayleigh_lut_",) + s_parts(m.replace(" ", "_")).parts + (".h5",)))
    v.ensure("table of this aerosol and atmosphere", zs(obj.reflectance_lut_filename) == zs(want))
    old = outdated(v, fs, rd, ut, a)
    if effects(v):
        v.ensure("only when outdated and allowed", z3.And(old, z3.BoolVal(allowed)))
        one_download(v, "construction", [e for e in v.c.events if e[0] != "loop"], rd, a, core.TRUE)
    else:
        v.ensure("nothing needed", z3.Not(z3.And(old, z3.BoolVal(allowed))))


CONTRACTS = [Contract("download_luts[any list of types]", plain("some")), Contract("download_luts[spellings]", spelled),
             Contract("check_and_download[any list of types]", check("some")), Contract("check_and_download[all types]", check("all")),
             Contract("check_and_download[empty list]", check("empty")),
             Contract("program download_atm_correction_luts[any list of types]", check("some", True)),
             Contract("program download_atm_correction_luts[all types]", check("all", True)),
             Contract("RayleighConfigBaseClass", base), Contract("Rayleigh", correction)]
ASSUMPTIONS = ["get_config returns the configured, expanded directory (C23)", "a type is requested at most once",
               "file system, network and tar archives behave as in dv/ioshims.py (successful answers; failures are C22)"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 1000, "thorough": 1500, "search": 2500}[tier]):
        ver = {t: rng.choice([None, "@\n", "@", " @ \r\nx\n", "v0.9\n", "", "\n@\n", "x@\n"]) for t in TYPES}
        n = rng.choice([0, 1, 1, 2, 5, 11])
        yield dict(ver=ver, allow=rng.choice([None, True, True, False]), dry=rng.random() < 0.3, types=rng.sample(TYPES, n),
                   how=rng.choice(["check", "check", "check-all", "program", "program", "plain", "plain-all", "old-str", "old-list", "ctor", "ctor", "ctor", "bad"]),
                   atm=rng.choice(ATM), mkdir=rng.random() < 0.5, box=rng.choice(["list", "tuple", "set", "iter"]))


def run_case(case):
    import shutil
    import warnings
    import yaml
    d = os.path.join(orc.scratch(), "c21")
    shutil.rmtree(d, ignore_errors=True)
    ray = os.path.join(d, "ray")
    os.makedirs(ray)
    conf = dict(rsr_dir=os.path.join(d, "rsr"), rayleigh_dir=ray)
    if case["allow"] is not None:
        conf["download_from_internet"] = case["allow"]
    with open(os.path.join(d, "c.yaml"), "w") as f:
        yaml.safe_dump(conf, f)
    os.environ["PSP_CONFIG_FILE"] = os.path.join(d, "c.yaml")
    from pyspectral import rayleigh, utils
    if sorted(utils.AEROSOL_TYPES) != TYPES or sorted(utils.ATMOSPHERES) != sorted(ATM):
        return "types %r" % (utils.AEROSOL_TYPES,)
    old = {}
    files = [utils.ATM_CORRECTION_LUT_VERSION[t]["filename"] for t in TYPES]
    if len(set(files)) != len(files):
        return "version file names %r" % files
    for t in TYPES:
        rec, s = utils.ATM_CORRECTION_LUT_VERSION[t], case["ver"][t]
        if s is not None:
            os.makedirs(os.path.join(ray, t))
            with open(os.path.join(ray, t, rec["filename"]), "w", newline="") as f:
                f.write(s.replace("@", rec["version"]))
        elif case["mkdir"]:
            os.makedirs(os.path.join(ray, t))
        old[t] = s is None or s.replace("@", rec["version"]).split("\n")[0].strip() != rec["version"]
    types, how = case["types"], case["how"]
    one = (types or ["marine_clean_aerosol"])[0]
    box = {"tuple": tuple, "set": set}.get(case.get("box"), list)

    def listing():
        return sorted((os.path.join(r, f), os.path.getmtime(os.path.join(r, f)) if r != ray else 0) for r, ds, fs in os.walk(ray) for f in fs + ds)

    def name_of(u):
        return u.rsplit("/", 1)[1].encode()
    try:
        before = listing()
        with net.FakeNet(lambda u: dict(pieces=[net.tarball({"table.txt": name_of(u)})])) as n, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "check":
                rayleigh.check_and_download(aerosol_types=box(types), **dry_kw(case["dry"]))
                want = [t for t in (types or TYPES) if old[t]]
            elif how == "check-all":
                rayleigh.check_and_download(**dry_kw(case["dry"]))
                want = [t for t in TYPES if old[t]]
            elif how == "program":
                cli.run_real("download_atm_correction_luts", ["--dry_run"] * case["dry"] + (["-a"] + types if types else []))
                want = [t for t in (types or TYPES) if old[t]]
            elif how == "plain":
                utils.download_luts(aerosol_types=iter(types) if case.get("box") == "iter" else box(types), **dry_kw(case["dry"]))
                want = types
            elif how == "plain-all":
                utils.download_luts(**dry_kw(case["dry"]))
                want = TYPES
            elif how == "old-str":
                utils.download_luts(aerosol_type=one, **dry_kw(case["dry"]))
                want = [one]
            elif how == "old-list":
                utils.download_luts(aerosol_type=box(types), **dry_kw(case["dry"]))
                want = types
            elif how == "ctor":
                kw = dict(aerosol_type=one) if types else {}
                o = rayleigh.Rayleigh("NOAA-20", "viirs", atmosphere=case["atm"], **kw)
                want = [one] if old[one] and case["allow"] else []
                p = os.path.join(ray, one, "rayleigh_lut_%s.h5" % case["atm"].replace(" ", "_"))
                if str(o.reflectance_lut_filename) != p:
                    return "table %s, expected %s" % (o.reflectance_lut_filename, p)
            else:
                want = []
                for a, m in (("nosuch", "us-standard"), ("rayleigh_only", "nosuch"), ("marine_clean_aerosol ", "tropical")):
                    try:
                        rayleigh.Rayleigh("NOAA-20", "viirs", aerosol_type=a, atmosphere=m)
                        return "accepted %r %r" % (a, m)
                    except AttributeError:
                        pass
            if case["dry"] and how != "ctor":
                want = []
            if len(n.urls) != len(want):
                return "%s: requests %r, needed %r" % (how, n.urls, want)
        for t in want:
            p = os.path.join(ray, t, "table.txt")
            nm = "pyspectral_atm_correction_luts_%s.tgz" % fname(t)
            if not os.path.exists(p) or open(p).read() != nm:
                return "%s: %s not in its directory (%s)" % (how, nm, open(p).read() if os.path.exists(p) else "missing")
        if not want and listing() != before:
            return "%s: files changed without a download" % how
        for t in TYPES:
            if t not in want and os.path.exists(os.path.join(ray, t, "table.txt")):
                return "%s: %s fetched although not needed" % (how, t)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        orc.configure()
