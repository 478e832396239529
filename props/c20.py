"""C20: response data are downloaded exactly when outdated and allowed."""
import os

import z3

from dv import conc, core
from dv.ioshims import FS, SPath, build_h5py, expanduser, mkworld, pjoin, s_parts
from dv.session import Contract
from dv.values import SStr, strlit
from props import cli, net, orc, sym
from props.c18 import build


def zs(x):
    return s_parts(x).z


def pick(v, name, options):
    """A generic choice out of finitely many (one path each)."""
    for o in options[:-1]:
        if v.c.decide(z3.Bool("in:%s=%s" % (name, o))):
            return o
    return options[-1]


def world(v, root=None, argv=None):
    fs = FS(files_only=True)
    rd = expanduser(v.str("rsr_dir"))          # get_config's contract (C23): expanded
    conf = {"rsr_dir": rd}
    allow = pick(v, "download_from_internet", ["absent", "yes", "no"])
    if allow != "absent":
        conf["download_from_internet"] = allow == "yes"
    w = mkworld(overrides={"pyspectral.config": {"get_config": lambda: sym.mkd(conf)}}, fs=fs,
                h5=build_h5py(lambda name: root))
    if argv is not None:
        w.shims["argparse"] = cli.module(argv)
        return fs, rd, allow == "yes", w, w.load("pyspectral.utils")
    mod = w.load("pyspectral.rsr_reader")
    ut = w.load("pyspectral.utils")
    return fs, rd, allow == "yes", mod, ut


def version(v, fs, rd, ut):
    """The version of the local data at this moment; -> z3 term"""
    p = pjoin(rd, ut.RSR_DATA_VERSION_FILENAME)
    ex = fs.exists_z(p)
    v.assume(fs.isfile(p).z == ex)             # the version file is a file
    line = fs.text(p, "rawline").strip()
    return z3.If(ex, line.z, SStr(["v0.0.0"]).z)


def gets(v, n0=0):
    return [e for e in v.c.events[n0:] if e[0] == "http-get"]


def effects(v, n0=0):
    out = []
    for e in v.c.events[n0:]:
        if e[0] in ("exists?", "isfile?", "open-read", "h5-open", "warn"):
            continue
        out.append(e)
    return out


def check_download(v, tag, ut, dest, n0=0):
    g = gets(v, n0)
    v.ensure(tag + ": one request", len(g) == 1)
    if len(g) == 1:
        v.ensure(tag + ": from the published address", zs(g[0][1]) == zs(ut.HTTP_PYSPECTRAL_RSR))
    x = [e for e in v.c.events[n0:] if e[0] == "extracted"]
    v.ensure(tag + ": unpacked once", len(x) == 1)
    if len(x) == 1:
        v.ensure(tag + ": into the destination", zs(x[0][2]) == zs(dest))


def outcome(v, out):
    """Normal return, or the HTTP error of a refused download (C22)."""
    import requests
    if out.ok:
        return True, out.value
    if isinstance(out.exc, requests.exceptions.HTTPError):
        v.must_raise(out, requests.exceptions.HTTPError, "HTTP error passed on")
        return False, None
    v.must(out, "returns")


def module(v, script=False):
    """check_and_download of the reader module, called directly or by the command line program."""
    argv = {}
    fs, rd, allowed, mod, ut = world(v, argv=argv if script else None)
    destk = pick(v, "dest", ["none", "str"] + ["path"] * (not script))
    d = v.str("dest_dir")
    v.assume(d.z != strlit(""))
    kw = {} if destk == "none" else {"dest_dir": d if destk == "str" else SPath(d)}
    dry = v.c.decide(z3.Bool("in:dry_run"))
    if dry:
        kw["dry_run"] = True
    ver = version(v, fs, rd, ut)
    if script:
        short = v.c.decide(z3.Bool("in:short options"))
        if dry:
            argv["-d" if short else "--dry_run"] = True
        if destk != "none":
            argv["-o" if short else "--destination"] = d
        if v.c.decide(z3.Bool("in:verbose")):
            argv["-v" if short else "--verbose"] = True
        good, r = outcome(v, v.call(mod.script, "download_rsr"))
    else:
        good, r = outcome(v, v.call(mod.check_and_download, **kw))
    old = not v.c.decide(ver == SStr([str(ut.RSR_DATA_VERSION)]).z)
    if not good:
        v.ensure("failing only when downloading", old and allowed and not dry)
    elif old and allowed and not dry:
        check_download(v, "check_and_download", ut, rd if destk == "none" else d)
    else:
        v.ensure("nothing fetched or written", not effects(v))


def updates(v):
    """download_rsr_updates for every version file, configuration, destination and dry-run setting; and again
    after the files changed."""
    fs, rd, allowed, mod, ut = world(v)
    db = v.must(v.call(mod._RSRDataBase), "constructed")
    v.ensure("constructing downloads nothing", not effects(v))
    destk = pick(v, "dest", ["none", "str", "path"])
    dest = rd
    kw = {}
    if destk != "none":
        d = v.str("dest_dir")
        kw["dest_dir"] = d if destk == "str" else SPath(d)
        dest = d
    dry = v.c.decide(z3.Bool("in:dry_run"))
    if dry:
        kw["dry_run"] = True
    req = SStr([str(ut.RSR_DATA_VERSION)]).z
    for n in ("first", "again"):
        ver = version(v, fs, rd, ut)
        v.ensure(n + ": version of the files as they are", zs(v.must(v.call(lambda: db.rsr_data_version), "returns")) == ver)
        upto = v.must(v.call(lambda: db.rsr_data_version_uptodate), "returns")
        v.ensure(n + ": up to date iff equal", core.as_bool(upto) == (ver == req))
        n0 = len(v.c.events)
        good, r = outcome(v, v.call(db.download_rsr_updates, **kw))
        old = not v.c.decide(ver == req)
        if good:
            v.ensure(n + ": truthful answer", core.as_bool(r) == z3.BoolVal(old))
        if not good:
            v.ensure(n + ": failing only when downloading", old and allowed and not dry)
            return
        if old and allowed and not dry:
            check_download(v, n, ut, dest, n0)
        else:
            v.ensure(n + ": nothing fetched or written", not effects(v, n0))
        fs.change()


def plain(v):
    """download_rsr itself: always fetches, unless it is a dry run."""
    fs, rd, allowed, mod, ut = world(v)
    destk = pick(v, "dest", ["none", "str", "path"])
    d = v.str("dest_dir")
    kw = {} if destk == "none" else {"dest_dir": d if destk == "str" else SPath(d)}
    dry = v.c.decide(z3.Bool("in:dry_run"))
    if dry:
        kw["dry_run"] = True
    good, r = outcome(v, v.call(ut.download_rsr, **kw))
    if dry:
        v.ensure("dry run fetches and writes nothing", good and not effects(v))
    elif good:
        check_download(v, "download", ut, rd if destk == "none" else d)


def reader(by):
    def f(v):
        root, want = build(v, {"ch1": 1}, "str", forks=False)
        fs, rd, allowed, mod, ut = world(v, root)
        ver = version(v, fs, rd, ut)
        old = not v.c.decide(ver == SStr([str(ut.RSR_DATA_VERSION)]).z)
        if by == "filename":
            fn = v.str("filename")
            v.assume(fs.isfile(fn).z)
            v.must(v.call(mod.RelativeSpectralResponse, filename=fn), "returns")
            v.ensure("a file given by name: nothing fetched or written", not effects(v))
            return
        out = v.call(mod.RelativeSpectralResponse, "Meteosat-9", "seviri")
        if not out.ok and isinstance(out.exc, FileNotFoundError):
            v.must_raise(out, FileNotFoundError, "no such file")
            good = True
        else:
            good, _ = outcome(v, out)
        if old and allowed:
            if good:
                check_download(v, "outdated", ut, rd)
                names = [e[0] for e in v.c.events]
                if "h5-open" in names:
                    v.ensure("updated before reading", names.index("extracted") < names.index("h5-open"))
        else:
            v.ensure("nothing fetched or written", good and not effects(v))
    return f


CONTRACTS = [Contract("download_rsr_updates, twice", updates), Contract("download_rsr", plain),
             Contract("check_and_download", module),
             Contract("program download_rsr", lambda v: module(v, True)),
             Contract("reader[by platform and instrument]", reader("names")), Contract("reader[by file name]", reader("filename"))]
ASSUMPTIONS = ["get_config returns the configured, expanded directory (C23)",
               "file system, network and tar archives behave as in dv/ioshims.py; unpacking changes files arbitrarily"]


# ---------------------------------------------------------------------------------- run-time form
def cases(rng, tier):
    for k in range({"quick": 2000, "thorough": 2000, "search": 2500}[tier]):
        yield dict(first=rng.choice([None, "@", "@\n", "  @  \n", "\t@\r\nmore\n", "v0.0.0\n", "", "\n@\n", "@x\n", "v@\n", "@\n@\n", "V1.0"]),
                   second=rng.choice([None, "@\n", "other\n"]), allow=rng.choice([None, True, True, False]),
                   dry=rng.random() < 0.3, dest=rng.choice([None, "str", "path", "here", "relative"]),
                   how=rng.choice(["db", "db", "names", "file", "plain", "module", "program"]), status=rng.choice([200, 200, 200, 404, 503]), ships=rng.random() < 0.5)


def run_case(case):
    import shutil
    from pathlib import Path
    import requests
    import yaml
    d = os.path.join(orc.scratch(), "c20")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "rsr"))
    os.makedirs(os.path.join(d, "dest"))
    conf = dict(rsr_dir=os.path.join(d, "rsr"), rayleigh_dir=os.path.join(d, "ray"))
    if case["allow"] is not None:
        conf["download_from_internet"] = case["allow"]
    with open(os.path.join(d, "c.yaml"), "w") as f:
        yaml.safe_dump(conf, f)
    os.environ["PSP_CONFIG_FILE"] = os.path.join(d, "c.yaml")
    from pyspectral import rsr_reader, utils
    req = utils.RSR_DATA_VERSION
    vf = os.path.join(conf["rsr_dir"], utils.RSR_DATA_VERSION_FILENAME)

    def put(s):
        if s is None:
            if os.path.exists(vf):
                os.remove(vf)
            return "v0.0.0"
        with open(vf, "w", newline="") as f:
            f.write(s.replace("@", req))
        return s.replace("@", req).split("\n")[0].strip()
    dest = {None: None, "str": os.path.join(d, "dest"), "path": Path(d) / "dest", "here": "", "relative": "dest"}[case["dest"]]
    if case["how"] == "program" and dest == "":
        raise conc.Skip()
    target = os.path.join(d, "dest") if dest is not None else conf["rsr_dir"]
    cwd = os.getcwd()
    # the archive may bring the version file of what it contains
    data = net.tarball(dict({"new.txt": b"payload"}, **({utils.RSR_DATA_VERSION_FILENAME: (req + "\n").encode()} if case.get("ships") else {})))

    def listing():
        return {f: os.path.getmtime(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}
    try:
        if case["dest"] in ("here", "relative"):
            os.chdir(target if dest == "" else d)
        with net.FakeNet(lambda u: dict(status=case["status"], pieces=[data])) as n:
            for s in (case["first"], case["second"]):
                ver = put(s)
                n.urls.clear()
                new = os.path.join(target, "new.txt")
                if os.path.exists(new):
                    os.remove(new)
                before = listing()
                ret, err = None, None
                kw = {} if dest is None else {"dest_dir": dest}
                if case["dry"]:
                    kw["dry_run"] = True
                try:
                    if case["how"] == "db":
                        db = rsr_reader._RSRDataBase()
                        if db.rsr_data_version != ver:
                            return "version %r, expected %r" % (db.rsr_data_version, ver)
                        if bool(db.rsr_data_version_uptodate) != (ver == req):
                            return "up to date %r" % db.rsr_data_version_uptodate
                        ret = db.download_rsr_updates(**kw)
                    elif case["how"] == "plain":
                        utils.download_rsr(**kw)
                    elif case["how"] == "module":
                        rsr_reader.check_and_download(**kw)
                    elif case["how"] == "program":
                        cli.run_real("download_rsr", ["-d"] * case["dry"] + (["-o", str(dest)] if dest else []))
                    elif case["how"] == "names":
                        rsr_reader.RelativeSpectralResponse("Meteosat-9", "seviri")
                    else:
                        rsr_reader.RelativeSpectralResponse(filename=os.path.join(d, "nosuch.h5"))
                except FileNotFoundError:
                    if case["how"] not in ("names", "file"):
                        raise
                except requests.exceptions.HTTPError as e:
                    err = e
                h = case["how"]
                want = {"db": ver != req and bool(case["allow"]) and not case["dry"], "plain": not case["dry"],
                        "names": ver != req and bool(case["allow"]), "file": False,
                        "module": ver != req and bool(case["allow"]) and not case["dry"],
                        "program": ver != req and bool(case["allow"]) and not case["dry"]}[h]
                if len(n.urls) != int(want):
                    return "requests %r with version %r, allowed %r, dry run %r" % (n.urls, ver, case["allow"], case["dry"])
                tgt = conf["rsr_dir"] if h in ("names", "file") else target
                if want:
                    if n.urls[0] != utils.HTTP_PYSPECTRAL_RSR:
                        return "requested %s" % n.urls[0]
                    if (err is not None) != (case["status"] >= 400):
                        return "status %d: error %r" % (case["status"], err)
                    if os.path.exists(os.path.join(tgt, "new.txt")) != (err is None):
                        return "not unpacked into %s" % tgt
                elif listing() != before:
                    return "files changed without a download"
                if h == "db" and err is None and ret is not (ver != req):
                    return "answered %r for version %r" % (ret, ver)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        orc.configure()
