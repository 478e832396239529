"""C28: the testing helpers."""
import gc
import os
import unittest.mock as rmock
import weakref

import z3

from dv import conc, core, loader
from dv.core import Unsupported, ctx, modelled
from dv.ioshims import FS, Environ, Net, SPath, ShimModule, build_h5py, mkworld, s_parts, simp
from dv.session import Contract, _tb
from dv.values import STR, SStr
from props import orc, sym
from props.c20 import pick, zs

KEY = "PSP_CONFIG_FILE"


class PatchEnv:
    """mock.patch.dict(os.environ, ...): the entries are set inside, everything is as before afterwards."""

    def __init__(self, env, values, kw):
        self.env, self.values, self.kw = env, values, kw

    def __enter__(self):
        self.saved = dict(self.env.sym)
        self.env.update(self.values, **self.kw)
        return self.env

    def __exit__(self, *a):
        self.env.sym.clear()
        self.env.sym.update(self.saved)
        return False
    start = __enter__

    def stop(self): self.__exit__()


class Lab:
    """The testing module over a recorded environment, file system, temporary directories and mock.patch."""

    def __init__(self, v, faults=False):
        self.v = v
        self.fs = FS(faults=faults)
        self.env = Environ()
        self.env.sym[KEY] = (z3.Bool("in:env set"), v.str("env_file"))
        self.before = self.env.sym[KEY]
        self.tmps, self.dumped, lab = [], [], self
        n = Net(self.fs)
        n.good, n.length = True, True

        class TemporaryDirectory:
            def __init__(self, suffix=None, prefix=None, dir=None, **k):
                lab.fs.fault("mkdtemp", OSError(28, "mkdtemp"))
                rec = {"name": SStr.atom(z3.Const("tmpdir%d" % len(lab.tmps), STR)), "gone": False}
                lab.tmps.append(rec)
                self.rec, self.name = rec, rec["name"]
                self._fin = weakref.finalize(self, rec.__setitem__, "gone", True)

            def cleanup(self): self.rec["gone"] = True
            def __enter__(self): return self.name
            def __exit__(self, *a): self.cleanup()

        def mkdtemp(*a, **k):
            raise Unsupported("mkdtemp")
        tf = ShimModule("tempfile", None, TemporaryDirectory=TemporaryDirectory, mkdtemp=mkdtemp)

        class Mock:
            Mock, MagicMock, DEFAULT, sentinel, ANY = rmock.Mock, rmock.MagicMock, rmock.DEFAULT, rmock.sentinel, rmock.ANY

            class patch:
                def __new__(cls, target, *a, **k):
                    m, n = target.rsplit(".", 1)
                    return rmock.patch.object(lab.w.load(m), n, *a, **k)
                object = rmock.patch.object

                @staticmethod
                def dict(d, values=(), clear=False, **kw):
                    if d is not lab.env or clear:
                        raise Unsupported("mock.patch.dict of other things")
                    return PatchEnv(lab.env, values, kw)

        def dump(data, stream=None, **k):
            lab.fs.fault("yaml", OSError(28, "dump"))
            if stream is None:
                raise Unsupported("yaml.dump to text")
            lab.dumped.append((zs(simp(s_parts(stream.p))), data))

        def load(f):
            for p, d in reversed(lab.dumped):
                if z3.eq(p, zs(simp(s_parts(f.p)))):
                    return sym.mkd({k: d[k] for k in d})
            return sym.mkd({"from": SStr.atom(zs(simp(s_parts(f.p))))})

        def files(s):
            raise Unsupported("h5 read")
        h5 = build_h5py(files, [])
        real = h5.File

        def File(name, mode="r", **k):
            lab.fs.fault("h5", OSError(28, "h5"))
            return real(name, mode, **k)
        h5.__dict__["File"] = File
        self.w = mkworld(fs=self.fs, environ=self.env, net=n, h5=h5, yaml_load=load,
                         extra={"tempfile": tf, "unittest": ShimModule("unittest", None, mock=Mock), "unittest.mock": Mock})
        self.w.shims["yaml"].__dict__.update(dump=dump, safe_dump=dump)
        self.mod = self.w.load("pyspectral.testing")
        self.utils, self.reader, self.config = (self.w.load("pyspectral." + x) for x in ("utils", "rsr_reader", "config"))
        self.patched = [(self.utils, "requests"), (self.reader, "_load_rsr_info_from_file")]
        self.saved = [getattr(m, n) for m, n in self.patched]

    def path_in_tmp(self, p):
        """p lies in a temporary directory of this run: nothing exists there unless written."""
        z = s_parts(p).parts
        return bool(z) and not isinstance(z[0], str) and str(z[0]).startswith("tmpdir")

    def restored(self, tag):
        v = self.v
        (b, x), (b2, y) = self.before, self.env.sym[KEY]
        v.ensure(tag + ": the environment entry is there iff it was", b == b2)
        if y is None:
            v.ensure(tag + ": the environment entry is what it was", z3.Not(b))
        else:
            v.ensure(tag + ": the environment entry is what it was", z3.Implies(b, zs(x) == zs(y)))
        v.ensure(tag + ": nothing else in the environment", not list(dict.keys(self.env)))
        v.ensure(tag + ": replaced functions are back", all(getattr(m, n) is s for (m, n), s in zip(self.patched, self.saved)))

    def ended(self, tag):
        self.restored(tag)
        gc.collect()
        self.v.ensure(tag + ": temporary directories are gone", all(t["gone"] for t in self.tmps))


class Odd(Exception):
    pass


EXC = {"none": None, "exception": Odd("x"), "interrupt": KeyboardInterrupt(), "exit": SystemExit(3), "stop": StopIteration(), "generator": GeneratorExit()}


def use(v, lab, make, body, exc):
    """with make() as y: body(y); raise exc  -> (entered, exception that came out)"""
    ent = []
    try:
        with make() as y:
            ent.append(y)
            body(y)
            if exc is not None:
                raise exc
        return ent, None
    except core.EngineStop:
        raise
    except BaseException as e:  # noqa
        if e is not exc and not loader.explicit_raise(e):
            raise Unsupported("unmodelled %s: %s\n%s" % (type(e).__name__, e, _tb(e)))
        e.__traceback__ = None
        e.__context__ = None
        return ent, e


def finish(v, lab, ent, exc, came):
    if ent:
        v.ensure("exceptions pass unchanged", came is exc)
    else:
        v.ensure("only a failing set-up ends before the body", came is not None and lab.fs.faults and any(e[0] == "fault" for e in v.c.events))
    lab.ended("afterwards")


def overriding(faults):
    def f(v):
        lab = Lab(v, faults)
        how = pick(v, "given", ["path", "options", "nothing"])
        opts = {"rsr_dir": v.str("rsr_dir"), "download_from_internet": False, "other": v.num("other")}
        given = SPath(v.str("config_path"))
        v.assume(lab.fs.EX(zs(given)))
        v.assume(lab.fs.ISF(zs(given)))
        kw = {"path": {"config_path": given}, "options": {"config_options": sym.mkd(opts)}, "nothing": {}}[how]
        exc = EXC[pick(v, "body ends", list(EXC))]

        def body(y):
            b, x = lab.env.sym[KEY]
            v.ensure("inside: the overriding file", z3.And(b, zs(x) == zs(y)))
            if how == "path":
                v.ensure("inside: the file given", zs(y) == zs(given))
                v.ensure("the file given is not written", not lab.dumped and not lab.tmps)
            else:
                v.ensure("inside: a temporary file", len(lab.tmps) == 1 and not lab.tmps[0]["gone"] and zs(y).sexpr().find("tmpdir0") >= 0)
                v.ensure("options written to it", len(lab.dumped) == 1 and z3.eq(lab.dumped[0][0], zs(y)))
                want = opts if how == "options" else {}
                got = lab.dumped[0][1]
                v.ensure("exactly these options", sorted(dict.keys(got)) == sorted(want) and all(got[k] is want[k] for k in want))
        ent, came = use(v, lab, lambda: lab.mod.override_config(**kw), body, exc)
        finish(v, lab, ent, exc, came)
    return f


def refused(v, out, label):
    if out.ok or isinstance(out.exc, RuntimeError):
        v.ensure(label, not out.ok)
        out.exc = None
    else:
        v.must_raise(out, RuntimeError, label)


def forbidding(v):
    lab = Lab(v)
    exc = EXC[pick(v, "body ends", list(EXC))]
    what = pick(v, "attempt", ["rsr", "luts", "none"])
    conf = sym.mkd({"rsr_dir": v.str("rsr_dir"), "rayleigh_dir": v.str("rayleigh_dir")})
    lab.utils.get_config = lambda *a: conf

    def body(y):
        if what == "rsr":
            refused(v, v.call(lab.utils.download_rsr), "a download of responses is refused")
        elif what == "luts":
            refused(v, v.call(lab.utils.download_luts, aerosol_types=["rayleigh_only"]), "a download of tables is refused")
    ent, came = use(v, lab, lab.mod.forbid_pyspectral_downloads, body, exc)
    v.ensure("nothing is fetched", not [e for e in v.c.events if e[0] == "http-get"])
    finish(v, lab, ent, exc, came)


def DATA(v):
    """Some table to store."""
    return sym.mkd({k: v.arr("lut_" + k, tuple(v.dim("n%d_%s" % (q, k)) for q in range(n)))
                    for k, n in (("azimuth_difference", 1), ("reflectance", 4), ("satellite_zenith_secant", 1), ("sun_zenith_secant", 1), ("wavelengths", 1))})


ONE = dict(aerosol_types=["rayleigh_only"], atmospheres={"us-standard": 1})


def helpers(v, lab, name, dirs):
    """-> (context manager factory, expected configuration as (key, base directory or constant))"""
    m = lab.mod
    if name == "mock_rsr":
        allow = pick(v, "downloads", ["default", "yes"])
        kw = {"rsr_dir": dirs["a"]} if dirs else {}
        if allow == "yes":
            kw["download_from_internet"] = True
        return (lambda: m.mock_rsr(**kw)), {"rsr_dir": "", "download_from_internet": allow == "yes"}
    if name == "mock_tb_conversion":
        kw = {"tb2rad_dir": dirs["a"]} if dirs else {}
        return (lambda: m.mock_tb_conversion(**kw)), {"rsr_dir": "", "tb2rad_dir": "", "download_from_internet": False}
    if name == "mock_rayleigh":
        kw = dict(ONE, lut_data=DATA(v))
        if dirs:
            kw["rayleigh_dir"] = dirs["a"]
        return (lambda: m.mock_rayleigh(**kw)), {"rsr_dir": "", "rayleigh_dir": "", "download_from_internet": False}
    kw = {}
    if dirs:
        kw["tmp_path"] = dirs["a"]
    want = {"rsr_dir": "fake_rsr", "rayleigh_dir": "fake_rayleigh", "tb2rad_dir": "fake_tb2rad", "download_from_internet": False}
    if not lab.fs.faults and pick(v, "extra", ["no", "yes"]) == "yes":
        kw["extra_config_options"] = sym.mkd({"download_from_internet": True, "more": "x"})
        want.update(download_from_internet=True, more="x")
    m._default_rayleigh_lut_data = lambda: DATA(v)
    m.AEROSOL_TYPES, m.ATMOSPHERES = ONE["aerosol_types"], ONE["atmospheres"]
    return (lambda: m.mock_pyspectral_downloads(**kw)), want


def mocking(name, faults=False):
    def f(v):
        lab = Lab(v, faults)
        dirs = {"a": SPath(v.str("dir_a"))} if pick(v, "directory", ["given", "temporary"]) == "given" else None
        exc = EXC[pick(v, "body ends", list(EXC)[:1] if faults else list(EXC)[:3] if name == "mock_pyspectral_downloads" else list(EXC))]
        make, want = helpers(v, lab, name, dirs)
        inside = []

        def body(y):
            b, x = lab.env.sym[KEY]
            v.ensure("inside: an overriding configuration file", z3.And(b, z3.BoolVal(bool(lab.dumped) and z3.eq(lab.dumped[-1][0], zs(x)))))
            got = lab.dumped[-1][1]
            base = dirs["a"].s if dirs else next(t["name"] for t in lab.tmps if not t["gone"])
            v.ensure("inside: these settings", sorted(dict.keys(got)) == sorted(want))
            for k, x in want.items():
                if k.endswith("_dir"):
                    p = SPath(base) / x if x else SPath(base)
                    v.ensure("inside: %s" % k, zs(got[k]) == zs(p))
                else:
                    v.ensure("inside: %s" % k, got[k] == x)
            v.ensure("inside: responses are not read from files", lab.reader._load_rsr_info_from_file is not lab.saved[1])
            inside.append(len([t for t in lab.tmps if not t["gone"]]))
        ent, came = use(v, lab, make, body, exc)
        if inside:
            v.ensure("temporary directories alive inside", inside[0] == (1 if dirs else 2))
        finish(v, lab, ent, exc, came)
        v.ensure("nothing is deleted from a directory given", not [e for e in v.c.events if e[0] in ("remove", "rename", "rmtree")])
        v.ensure("nothing is fetched", not [e for e in v.c.events if e[0] == "http-get"])
    return f


def nested(v):
    """Two helpers, one inside the other, each ending in any way: each restores the state it found."""
    lab = Lab(v)
    names = ["override", "forbid", "rsr"]
    a, b = pick(v, "outer", names), pick(v, "inner", names)
    ea, eb = EXC[pick(v, "outer ends", ["none", "exception"])], EXC[pick(v, "inner ends", ["none", "exception"])]

    def mk(n):
        return {"override": lambda: lab.mod.override_config({"n": 1}), "forbid": lab.mod.forbid_pyspectral_downloads,
                "rsr": lambda: lab.mod.mock_rsr()}[n]

    def outer(y):
        sv, st, n = lab.env.sym[KEY], [getattr(m, n) for m, n in lab.patched], len(lab.tmps)
        ent, came = use(v, lab, mk(b), lambda z: None, eb)
        v.ensure("inner ends as its body", came is eb)
        now = lab.env.sym[KEY]
        v.ensure("inner restored the outer configuration", sv[0] == now[0])
        if sv[1] is not None and now[1] is not None:
            v.ensure("inner restored the outer file", z3.Implies(sv[0], zs(sv[1]) == zs(now[1])))
        v.ensure("inner restored the outer replacements", all(getattr(m, q) is s for (m, q), s in zip(lab.patched, st)))
        gc.collect()
        v.ensure("the outer temporary directories are alive, the inner ones gone",
                 all(not t["gone"] for t in lab.tmps[:n]) and all(t["gone"] for t in lab.tmps[n:]))
    ent, came = use(v, lab, mk(a), outer, ea)
    finish(v, lab, ent, ea, came)


MOCKS = ("mock_rsr", "mock_tb_conversion", "mock_rayleigh", "mock_pyspectral_downloads")
CONTRACTS = [Contract("override_config", overriding(False)), Contract("override_config[failing set-up]", overriding(True)),
             Contract("forbid_pyspectral_downloads", forbidding), Contract("nested helpers", nested)] + \
    [Contract(n, mocking(n)) for n in MOCKS] + [Contract(n + "[failing set-up]", mocking(n, True)) for n in MOCKS]
ASSUMPTIONS = ["unittest.mock.patch and contextlib.contextmanager are the real library code; the target of a patch is looked up in the extracted module",
               "tempfile.TemporaryDirectory deletes its directory when left or garbage collected",
               "the body does not change PSP_CONFIG_FILE itself"]


# ---------------------------------------------------------------------------------- run-time form
HELPERS = ("override", "override-path", "override-none", "forbid", "mock_rsr", "mock_rsr-open", "mock_tb_conversion", "mock_rayleigh", "mock_all", "mock_all-extra")


def cases(rng, tier):
    for k in range({"quick": 250, "thorough": 1200, "search": 1200}[tier]):
        depth = rng.choice([1, 1, 2, 3])
        yield dict(env=rng.choice(["unset", "file", "odd", "empty"]), stack=[rng.choice(HELPERS[:-2] if rng.random() < 0.9 else HELPERS) for _ in range(depth)],
                   given=[rng.random() < 0.4 for _ in range(depth)],
                   ends=rng.choice(["none", "none", "exception", "interrupt", "exit", "stop", "generator"]), bad=rng.random() < 0.15)


def run_case(case):
    import shutil
    import tempfile
    import yaml
    from pathlib import Path

    import numpy as np
    from pyspectral import rsr_reader, testing, utils
    from pyspectral.config import get_config
    from props import net
    orc.configure()
    d = os.path.join(orc.scratch(), "c28")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "tmp"))
    with open(os.path.join(d, "c.yaml"), "w") as f:
        yaml.safe_dump({"rsr_dir": os.path.join(d, "own"), "rayleigh_dir": os.path.join(d, "own"), "mark": 7}, f)
    old_env, old_tmp = os.environ.get(KEY), tempfile.tempdir
    tempfile.tempdir = os.path.join(d, "tmp")
    env = {"unset": None, "file": os.path.join(d, "c.yaml"), "odd": "/no/such file", "empty": ""}[case["env"]]
    os.environ.pop(KEY, None)
    if env is not None:
        os.environ[KEY] = env
    lut = {k: np.linspace(1, 2, 2 ** n).reshape((2,) * n) for k, n in (("azimuth_difference", 1), ("reflectance", 4),
           ("satellite_zenith_secant", 1), ("sun_zenith_secant", 1), ("wavelengths", 1))}
    funcs = lambda: (utils.requests, utils.requests.get, rsr_reader._load_rsr_info_from_file)
    exc = {"none": None, "exception": Odd("x"), "interrupt": KeyboardInterrupt(), "exit": SystemExit(3), "stop": StopIteration(), "generator": GeneratorExit()}[case["ends"]]
    problems = []

    def helper(q):
        h, given = case["stack"][q], case["given"][q]
        base = Path(d) / ("given%d" % q)
        kw = {}
        if h == "override":
            return testing.override_config({"rsr_dir": d + "/x%d" % q, "rayleigh_dir": d + "/y", "download_from_internet": False, "n": {"a": q}}), {"rsr_dir": d + "/x%d" % q, "n": {"a": q}, "download_from_internet": False}
        if h == "override-none":
            return testing.override_config(), {}
        if h == "override-path":
            p = Path(d) / ("p%d.yaml" % q)
            p.write_text("q: %d\n" % q)
            return testing.override_config(config_path=p), {"q": q}
        if h == "forbid":
            return testing.forbid_pyspectral_downloads(), None
        if h.startswith("mock_rsr"):
            if given:
                kw["rsr_dir"] = base
            if h.endswith("open"):
                kw["download_from_internet"] = True
            return testing.mock_rsr(**kw), {"rsr_dir": base if given else "tmp", "download_from_internet": h.endswith("open")}
        if h == "mock_tb_conversion":
            if given:
                kw["tb2rad_dir"] = base
            return testing.mock_tb_conversion(**kw), {"tb2rad_dir": base if given else "tmp", "rsr_dir": base if given else "tmp", "download_from_internet": False}
        if h == "mock_rayleigh":
            if given:
                kw["rayleigh_dir"] = base
            return testing.mock_rayleigh(lut_data=lut, **kw), {"rayleigh_dir": base if given else "tmp", "rsr_dir": base if given else "tmp", "download_from_internet": False}
        if given:
            kw["tmp_path"] = base
        want = {k + "_dir": base / ("fake_" + k) if given else "tmp" for k in ("rsr", "rayleigh", "tb2rad")}
        want["download_from_internet"] = False
        if h.endswith("extra"):
            kw["extra_config_options"] = {"more": 3, "rsr_dir": d + "/elsewhere"}
            want.update(more=3, rsr_dir=d + "/elsewhere")
        return testing.mock_pyspectral_downloads(**kw), want

    def inside(want):
        c = get_config()
        for k, x in want.items():
            g = c.get(k)
            if x == "tmp":
                if not str(g).startswith(os.path.join(d, "tmp")):
                    problems.append("%s is %r inside" % (k, g))
            elif g != (str(x) if isinstance(x, Path) else x):
                problems.append("%s is %r inside, expected %r" % (k, g, x))
        if "mark" in c:
            problems.append("the outer configuration is used inside")

    def state():
        return os.environ.get(KEY), funcs(), sorted(os.listdir(os.path.join(d, "tmp")))

    def go(q, forbidden):
        if q == len(case["stack"]):
            if forbidden:
                safe = os.environ.get(KEY) in (os.path.join(d, "c.yaml"),) or str(os.environ.get(KEY)).startswith(os.path.join(d, "tmp"))
                for fn in () if not safe else (lambda: utils.download_rsr(dest_dir=os.path.join(d, "dl")), lambda: utils.download_luts(aerosol_types=["rayleigh_only"])):
                    try:
                        if get_config().get("rayleigh_dir"):
                            fn()
                            problems.append("a download was not refused")
                    except RuntimeError:
                        pass
            if exc is not None:
                raise exc
            return
        before = state()
        try:
            cm, want = helper(q)
            with cm:
                if want is not None:
                    inside(want)
                    if case["stack"][q].startswith("mock") and rsr_reader._load_rsr_info_from_file is before[1][2]:
                        problems.append("responses are still read from files")
                go(q + 1, forbidden or want is None)
        except BaseException as e:  # noqa
            if e is not exc:
                raise
            if e is exc and q:
                e.__traceback__ = None
                after = state()
                if after[:2] != before[:2]:
                    problems.append("level %d left %r, was %r" % (q, after[:2], before[:2]))
                raise
            e.__traceback__ = None
        gc.collect()
        after = state()
        if after != before:
            problems.append("level %d left %r, was %r" % (q, after, before))
    try:
        with net.FakeNet(lambda u: dict(pieces=[net.tarball({"x": b"y"})])) as n:
            if case["bad"]:  # the set-up itself fails
                (Path(d) / "afile").write_text("x")
                before = state()
                bad = Path(d) / "afile" / "sub"
                for cm in (lambda: testing.mock_rsr(rsr_dir=bad), lambda: testing.mock_rayleigh(rayleigh_dir=bad, lut_data=lut),
                           lambda: testing.mock_pyspectral_downloads(tmp_path=bad), lambda: testing.override_config({"a": 1, "b": (lambda: 1), "c": open(os.devnull)}),
                           lambda: testing.mock_tb_conversion(tb2rad_dir=bad)):
                    try:
                        with cm():
                            problems.append("the body ran")
                    except Exception:  # noqa
                        pass
                    gc.collect()
                    if state() != before:
                        problems.append("failing set-up left %r, was %r" % (state(), before))
            else:
                go(0, False)
            if n.urls:
                problems.append("fetched %r" % n.urls)
        for q, g in enumerate(case["given"]):
            if g and case["stack"][q].startswith("mock") and not case["bad"] and not os.path.isdir(os.path.join(d, "given%d" % q)):
                problems.append("the directory given was deleted")
    finally:
        tempfile.tempdir = old_tmp
        if old_env is None:
            os.environ.pop(KEY, None)
        else:
            os.environ[KEY] = old_env
        shutil.rmtree(d, ignore_errors=True)
        orc.configure()
    return problems[0] if problems else None
