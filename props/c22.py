"""C22: an interrupted download never passes for a complete one."""
import os
import tarfile

import z3

from dv import conc, core, loops
from dv.ioshims import FS, Chunk, Content, Net, expanduser, mkworld, pjoin
from dv.session import Contract
from dv.values import SStr
from props import net, orc, sym
from props.c20 import pick, zs

SEEN = ("exists?", "isfile?", "open-read", "warn", "mkdir")


def chunk_loop(v, tag, e, name):
    """Every non-empty chunk is written, once, to the archive, and nothing else is."""
    _, K, mem, br = e
    k = z3.Int("idx:chunk")
    loops.note_key([k])
    v.c.inputs["chunk"] = ("int", k)
    pr = [(K[0], k)]
    mem = z3.substitute(mem, *pr)
    ok = []
    for guard, ev in br:
        g = z3.And(mem, z3.substitute(guard, *pr))
        w = [x for x in ev if x[0] == "write"]
        full = len(w) == 1 and isinstance(w[0][2], Chunk) and z3.eq(w[0][2].k, K[0])
        v.ensure(tag + ": only the chunk itself is written", z3.Implies(z3.And(g, z3.Not(Chunk.EMPTY(k))), z3.BoolVal(
            len(ev) == len(w) and full)))
        if full:
            v.ensure(tag + ": into the archive", z3.Implies(g, zs(w[0][1]) == zs(name)))
            ok.append(g)
    v.ensure(tag + ": every chunk is written", z3.Implies(z3.And(mem, z3.Not(Chunk.EMPTY(k))), z3.Or(*ok) if ok else core.FALSE))


def transferred(v, tag, evs):
    """evs: one attempt (from the request on).  The archive was received completely; -> its name"""
    op = [e for e in evs if e[0] == "open-write"]
    v.ensure(tag + ": one archive opened, emptied first", len(op) == 1 and "w" in str(op[0][2]) and "b" in str(op[0][2]))
    if len(op) != 1:
        return None
    name = op[0][1]
    lps = [e for e in evs if e[0] == "loop"]
    whole = [e for e in evs if e[0] == "write"]
    if whole:
        v.ensure(tag + ": the whole content is written", len(whole) == 1 and not lps and isinstance(whole[0][2], Content))
    else:
        its = [e for e in evs if e[0] == "iter_content"]
        v.ensure(tag + ": content read once", len(its) == 1)
        if lps:
            v.ensure(tag + ": one pass", len(lps) == 1)
            chunk_loop(v, tag, lps[0], name)
        else:
            v.ensure(tag + ": content written", False)
    cl = [i for i, e in enumerate(evs) if e[0] == "close"]
    xs = [i for i, e in enumerate(evs) if e[0] == "extract-start"]
    v.ensure(tag + ": closed before unpacking", bool(cl) and bool(xs) and cl[0] < xs[0])
    x = evs[xs[0]] if xs else None
    if x is not None:
        v.ensure(tag + ": the received archive is unpacked", zs(x[1]) == zs(name))
        v.ensure(tag + ": safely filtered", x[3] == "data" or x[3] is tarfile.data_filter)
    st = [e for e in evs if e[0] == "raise_for_status"]
    return name


def attempts(events):
    out = []
    for e in events:
        if e[0] == "http-get":
            out.append([])
        if out:
            out[-1].append(e)
    return out


def check(v, out, dest, resp):
    evs = [e for e in v.c.events if e[0] not in SEEN]
    first = [e for e in evs if e[0] == "http-get"]
    v.ensure("something is requested", bool(first) or any(e[0] == "fault" for e in evs))
    for at in attempts(evs):
        n = len([i for i, e in enumerate(at) if e[0] == "extract-start"])
        bad = [i for i, e in enumerate(at) if e[0] == "fault"]
        xs = [i for i, e in enumerate(at) if e[0] == "extract-start"]
        if xs:
            v.ensure("nothing unpacked after a failure", not any(b < xs[0] for b in bad))
            v.ensure("unpacked once", len(xs) == 1)
            v.ensure("into the destination", zs(at[xs[0]][2]) == zs(dest))
            v.ensure("only a successful answer is unpacked", z3.Not(resp[-1].bad) if resp else core.FALSE)
            transferred(v, "transfer", at)
    if out.ok:
        at = attempts(evs)
        v.ensure("no failure hidden", bool(at) and not any(e[0] == "fault" for e in at[-1]))
        if at:
            v.ensure("unpacked", any(e[0] == "extracted" for e in at[-1]))
            rm = [e for e in at[-1] if e[0] == "remove"]
            op = [e for e in at[-1] if e[0] == "open-write"]
            v.ensure("archive removed, nothing else", len(rm) == 1 and len(op) == 1)
            if len(rm) == 1 and len(op) == 1:
                v.ensure("the archive is what is removed", zs(rm[0][1]) == zs(op[0][1]))
                names = [e[0] for e in at[-1]]
                v.ensure("removed after unpacking", names.index("remove") > names.index("extracted"))
    else:
        from dv import loader
        if not loader.explicit_raise(out.exc):
            v.must(out, "modelled failure")
        v.ensure("an error only when something failed", z3.BoolVal(any(e[0] == "fault" for e in evs)) if not resp else
                 z3.Or(z3.BoolVal(any(e[0] == "fault" for e in evs)), resp[-1].bad))


def download(kind, tqdm, length):
    def f(v):
        fs = FS(faults=True, files_only=True)
        n = Net(fs)
        n.length = length
        resp = []
        get0 = n.get

        def get(*a, **k):
            resp.append(get0(*a, **k))
            return resp[-1]
        n.get = get
        rd = expanduser(v.str("dir"))
        w = mkworld(overrides={"pyspectral.config": {"get_config": lambda: sym.mkd({"rsr_dir": rd, "rayleigh_dir": rd})}},
                    fs=fs, net=n)
        ut = w.load("pyspectral.utils")
        if hasattr(ut, "TQDM_LOADED"):
            ut.TQDM_LOADED = tqdm
        if kind == "rsr":
            out = v.call(ut.download_rsr)
            dest = rd
        else:
            out = v.call(ut.download_luts, aerosol_types=loops.HOOKS.mklist(["rayleigh_only"]))
            dest = pjoin(rd, "rayleigh_only")
        check(v, out, dest, resp)
    return f


CONTRACTS = [Contract("%s[%s, %s]" % (k, "tqdm" if t else "no tqdm", {True: "length known", False: "length unknown", None: "any length"}[l]),
                      download(k, t, l))
             for k in ("rsr", "luts") for t in (True, False) for l in (None,)]
ASSUMPTIONS = ["requests, open, tarfile and os fail at any of: directory creation, connection, status, any chunk, opening, writing or closing the "
               "archive, opening or unpacking it, removing it; crashes of the process itself are not modelled (nothing is unpacked before "
               "the transfer is complete, so a crash leaves at most the archive and partly unpacked files)",
               "iter_content yields the chunks in order"]


# ---------------------------------------------------------------------------------- run-time form
FAULTS = [None, None, "connect", "status", "chunk", "write", "open", "notar", "truncated", "evil", "remove", "mkdir"]


def cases(rng, tier):
    for k in range({"quick": 1000, "thorough": 1500, "search": 2500}[tier]):
        yield dict(kind=rng.choice(["rsr", "luts"]), fault=rng.choice(FAULTS), status=rng.choice([301, 400, 401, 403, 404, 418, 429, 500, 502, 503]),
                   cuts=[rng.choice([0, 0.1, 0.25, 0.01]) for _ in range(rng.choice([0, 1, 3, 6]))], at=rng.random(), length=rng.random() < 0.6,
                   stale=rng.random() < 0.5, body=rng.choice(["tar", "html", "empty"]), members=rng.randint(1, 4), big=rng.random() < 0.1, evil=rng.choice(["parent", "absolute", "relative", "hard"]), seed=rng.randint(0, 10 ** 6))


class Full(Exception):
    pass


def run_case(case):
    import io
    import random
    import shutil
    import builtins
    import requests
    import yaml
    rng = random.Random(case["seed"])
    d = os.path.join(orc.scratch(), "c22")
    shutil.rmtree(d, ignore_errors=True)
    dest = os.path.join(d, "rsr") if case["kind"] == "rsr" else os.path.join(d, "ray", "rayleigh_only")
    os.makedirs(os.path.join(d, "rsr"))
    os.makedirs(os.path.join(d, "ray"))
    with open(os.path.join(d, "c.yaml"), "w") as f:
        yaml.safe_dump(dict(rsr_dir=os.path.join(d, "rsr"), rayleigh_dir=os.path.join(d, "ray"), download_from_internet=True), f)
    os.environ["PSP_CONFIG_FILE"] = os.path.join(d, "c.yaml")
    from pyspectral import utils
    files = {"f%d.bin" % k: rng.randbytes(rng.choice([0, 10, 5000, 2500000 if case["big"] else 100])) for k in range(case["members"])}
    data = net.tarball(files)
    fault = case["fault"]
    if case["stale"]:
        os.makedirs(dest, exist_ok=True)
        for n in ("pyspectral_rsr_data.tgz", "pyspectral_rayleigh_correction_luts.tgz"):
            with open(os.path.join(dest, n), "wb") as f:
                f.write(b"stale archive of an interrupted run" * 1000)
    if fault == "evil":
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w:gz") as t:
            way = case.get("evil", "parent")
            i = tarfile.TarInfo("../outside.txt" if way == "parent" else "link")
            if way == "parent":
                i.size = 4
                t.addfile(i, io.BytesIO(b"evil"))
            else:  # links that leave the destination
                i.type = tarfile.LNKTYPE if way == "hard" else tarfile.SYMTYPE
                i.linkname = os.path.join(d, "c.yaml") if way == "absolute" else "../../c.yaml" if way == "relative" else "../c.yaml"
                t.addfile(i)
        data = b.getvalue()
    elif fault == "notar":
        data = b"<html>not found</html>" if case["body"] != "empty" else b""
    elif fault == "truncated":
        data = data[:int(len(data) * min(0.9, case["at"]))]
    pieces = net.cut(case["cuts"], data)
    a = dict(pieces=pieces, length=case["length"])
    if fault == "connect":
        a = requests.exceptions.ConnectTimeout("no route")
    elif fault == "status":
        a["status"] = case["status"] if case["status"] >= 400 else 500
        if case["body"] == "html":
            a["pieces"] = [b"<html>"]
    elif fault == "chunk":
        a["fail_at"] = int(case["at"] * (len(pieces) + 1))
    real_open = builtins.open
    remove, unlink, io_open = os.remove, os.unlink, io.open

    class W:
        def __init__(self, f): self.f, self.n = f, 0
        def write(self, b):
            raise OSError(28, "No space left on device")
        def __enter__(self): return self
        def __exit__(self, *x): self.f.close()
        def __getattr__(self, n): return getattr(self.f, n)

    def fopen(p, mode="r", *x, **k):
        if isinstance(p, (str, os.PathLike)) and "w" in mode and os.fspath(p).startswith(d):
            if fault == "open":
                raise PermissionError(13, "denied")
            f = real_open(p, mode, *x, **k)
            return W(f) if fault == "write" else f
        return real_open(p, mode, *x, **k)

    def frem(p, *x, **k):
        if fault == "remove" and os.fspath(p).startswith(d):
            raise PermissionError(13, "denied")
        return remove(p, *x, **k)
    if fault == "mkdir" and case["kind"] == "luts":
        if case["stale"]:
            shutil.rmtree(dest)
        with open(os.path.join(d, "ray", "rayleigh_only"), "w") as f:
            f.write("a file in the way")
    err = None

    def unpacked():
        return {f: real_open(os.path.join(dest, f), "rb").read() for f in (os.listdir(dest) if os.path.isdir(dest) else []) if not f.endswith(".tgz")}

    def got_all():
        """Only padding of the archive was cut off."""
        return unpacked() == files
    try:
        # pathlib and the built-in names find these when they are called
        builtins.open, io.open, os.remove, os.unlink = fopen, fopen, frem, frem
        try:
            with net.FakeNet(lambda u: a) as n:
                if case["kind"] == "rsr":
                    utils.download_rsr()
                else:
                    utils.download_luts(aerosol_types=["rayleigh_only"])
        except Exception as e:  # noqa
            err = e
        finally:
            builtins.open, io.open, os.remove, os.unlink = real_open, io_open, remove, unlink
        fails = fault is not None and not (fault == "mkdir" and case["kind"] == "rsr") and not (fault == "write" and not data)
        if fails and err is None and not (fault == "truncated" and got_all()):
            return "failure (%s) not raised" % fault
        if not fails and err is not None:
            raise err
        if os.path.lexists(os.path.join(dest, "link")):
            return "link out of the destination unpacked"
        if os.path.exists(os.path.join(d, "outside.txt")) or os.path.exists(os.path.join(d, "ray", "outside.txt")):
            return "archive wrote outside the destination"
        got = unpacked()
        if err is None:
            if got != files:
                return "unpacked %r, expected %r" % ({k: len(x) for k, x in got.items()}, {k: len(x) for k, x in files.items()})
            if [f for f in os.listdir(dest) if f.endswith(".tgz")] and not case["stale"]:
                return "archive left behind: %r" % os.listdir(dest)
            if case["stale"] and len([f for f in os.listdir(dest) if f.endswith(".tgz")]) != 1:
                return "archive left behind: %r" % os.listdir(dest)
        elif fault in ("connect", "status", "chunk", "write", "open", "mkdir", "notar") and got:
            return "unpacked %r after failure (%s)" % (sorted(got), fault)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        orc.configure()
