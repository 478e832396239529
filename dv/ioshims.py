"""Contracts assumed for the I/O dependencies: logging, os, pathlib, open, requests, tarfile, h5py, yaml ...

Every call with an outside effect is recorded as an event of the path; every call that can fail in
reality fails nondeterministically here when the contract asks for faults, so a contract about
failures ranges over every fault point.
"""
import collections.abc
import errno
import functools
import inspect
import io
import numbers
import os as ros
import posixpath
import sys as rsys
import tarfile as rtarfile
import types
import typing

import numpy as rnp
import z3

from dv import core, shims
from dv.core import Unsupported, ctx, modelled
from dv.loops import BUILTINS, HOOKS, SDict, SymIter, SymList, VDict, VList, note_key
from dv.shims import ShimModule
from dv.values import (F8, STR, El, Opaque, Q, SArr, SBool, SNum, SStr, lift, mkbool, strlit, strtoken, to_real,
                       untoken)

ZSTR = STR


def s_parts(x):
    """str | SStr | SPath -> SStr"""
    if isinstance(x, SPath):
        x = x.s
    if isinstance(x, str):
        x = untoken(x)
    if isinstance(x, str):
        return SStr([x])
    if isinstance(x, SStr):
        return x
    if x is None:
        raise modelled(TypeError("expected str, bytes or os.PathLike object, not NoneType"))
    raise modelled(TypeError("expected str, bytes or os.PathLike object, not %s" % type(x).__name__))


def simp(s):
    c = s.concrete()
    return c if c is not None else s


def pjoin(a, *bs):
    out = s_parts(a)
    for b in bs:
        b = s_parts(b)
        bc = b.concrete()
        if bc is not None and bc.startswith("/"):
            out = b
            continue
        if b.parts and isinstance(b.parts[0], str) and b.parts[0].startswith("/"):
            out = b
            continue
        oc = out.concrete()
        if oc == "":
            out = b
            continue
        last = out.parts[-1] if out.parts else ""
        sep = "" if isinstance(last, str) and last.endswith("/") else "/"
        out = SStr(out.parts + (sep,) + b.parts)
    return simp(out)


_EXPU = z3.Function("expanduser", STR, STR)


def expanduser(p):
    was_path = isinstance(p, SPath)
    s = s_parts(p)
    c = s.concrete()
    if c is not None:
        r = "/home/user" + c[1:] if c.startswith("~") else c
    elif isinstance(s.parts[0], str) and s.parts[0]:
        r = SStr(("/home/user" + s.parts[0][1:],) + s.parts[1:]) if s.parts[0].startswith("~") else simp(s)
    else:
        # expanduser changes only a leading component; idempotent
        head = s.parts[0]
        if head[1] == () and z3.is_app(head[0]) and head[0].decl().name() == "expanduser":
            r = s
        else:
            from dv.values import apply_tr
            h = _EXPU(apply_tr(*head))
            ctx().fact(z3.Implies(apply_tr(*head) != strlit("~~"), _EXPU(h) == h))
            r = SStr(((h, ()),) + s.parts[1:])
    return SPath(r) if was_path else r


def basename(p):
    s = s_parts(p)
    c = s.concrete()
    if c is not None:
        return posixpath.basename(c)
    out = []
    for x in reversed(s.parts):
        if isinstance(x, str) and "/" in x:
            out.append(x.rsplit("/", 1)[1])
            return simp(SStr(out[::-1]))
        out.append(x)
    if not any(isinstance(x, str) for x in s.parts[:1]) and all(isinstance(x, str) for x in s.parts[1:]):
        # a name followed by a suffix without a separator
        return simp(SStr(((z3.Function("basename", STR, STR)(SStr(s.parts[:1]).z), ()),) + tuple(s.parts[1:])))
    raise Unsupported("basename of symbolic path")


def dirname(p):
    s = s_parts(p)
    c = s.concrete()
    if c is not None:
        return posixpath.dirname(c)
    parts = list(s.parts)
    for n in range(len(parts) - 1, -1, -1):
        x = parts[n]
        if isinstance(x, str) and "/" in x:
            return simp(SStr(parts[:n] + [x.rsplit("/", 1)[0]]))
    while len(parts) > 1 and isinstance(parts[-1], str):
        parts.pop()       # a suffix without a separator
    return SStr.atom(z3.Function("dirname", STR, STR)(SStr(parts).z))


class SPath:
    """pathlib.Path"""

    def __init__(self, *segs):
        if len(segs) == 1 and isinstance(segs[0], SPath):
            self.s = segs[0].s
        elif not segs:
            self.s = "."
        else:
            self.s = pjoin(segs[0], *segs[1:]) if len(segs) > 1 else simp(s_parts(segs[0]))

    fs = None

    def _n(self, s):
        return SPath(s)

    def __truediv__(self, o): return SPath(pjoin(self.s, o))
    def __rtruediv__(self, o): return SPath(pjoin(o, self.s))
    def joinpath(self, *o): return SPath(pjoin(self.s, *o))
    def dv_str(self): return self.s if isinstance(self.s, SStr) else self.s
    def __str__(self): return strtoken(self.s) if isinstance(self.s, SStr) else self.s
    def __fspath__(self): return str(self)
    def __format__(self, spec): return str(self)
    def __repr__(self): return "Path(%s)" % self

    def __eq__(self, o):
        if not isinstance(o, SPath):
            return False
        return SStr(s_parts(self).parts) == s_parts(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    def __hash__(self): return 17
    def expanduser(self): return expanduser(self)
    def resolve(self, strict=False): return self
    def absolute(self): return self

    @property
    def parent(self): return SPath(dirname(self.s))

    @property
    def name(self): return basename(self.s)

    def exists(self): return FS.cur().exists(self.s)
    def is_file(self): return FS.cur().isfile(self.s)
    def is_dir(self): return FS.cur().exists(self.s)
    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        FS.cur().mkdir(self.s, parents=parents, exist_ok=exist_ok)
    def symlink_to(self, target, *a):
        fs = FS.cur()
        if bool(fs.exists(self.s)):
            raise modelled(FileExistsError(str(self)))
        fs.fault("symlink", OSError(errno.EACCES, "symlink"))
        fs.write(self.s, "symlink", simp(s_parts(target)))
        fs.set(self.s, True)

    def write_text(self, data, *a, **k):
        with self.open("w") as f:
            f.write(data)
        return 1

    def unlink(self, missing_ok=False): FS.cur().remove(self.s, missing_ok)
    def open(self, mode="r", *a, **k): return FS.cur().open(self.s, mode)
    def read_text(self, *a, **k):
        with self.open("r") as f:
            return f.read()
    def glob(self, pat):
        return []
    def is_absolute(self): raise Unsupported("is_absolute")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        import pathlib
        if hasattr(pathlib.Path, name):
            raise Unsupported("Path.%s" % name)
        raise modelled(AttributeError(name))


class Fault(Exception):
    """marker base"""


class FS:
    """Symbolic file system: existence and content per path term, overlaid with this path's writes."""
    _cur = None
    epochs = 0

    def __init__(self, faults=False, files_only=False):
        FS.epochs = 0
        self.over = []          # [(zpath, bool, loop depth)] newest last
        self.base = 0
        ctx().states.append(self)
        self.faults, self.files_only = faults, files_only
        self.EX = self._ex("fs_exists")
        self.ISF = z3.Function("fs_isfile", STR, z3.BoolSort())
        self.epoch = 0
        FS._cur = self

    @staticmethod
    def _ex(name):
        """Existence; nothing has an empty name."""
        f = z3.Function(name, STR, z3.BoolSort())
        return lambda z: z3.And(f(z), z != strlit(""))

    def change(self):
        """Files changed from outside (an archive was unpacked, another process wrote): everything not written by
        this path itself may now be different."""
        self._wrote()
        FS.epochs += 1
        self.epoch = FS.epochs
        self.EX = self._ex("fs_exists@%d" % self.epoch)
        self.ISF = z3.Function("fs_isfile@%d" % self.epoch, STR, z3.BoolSort())

    def text(self, p, what):
        """Content (first line, whole) of a file at this moment."""
        self._read()
        return SStr.atom(z3.Function("fs_%s@%d" % (what, self.epoch), STR, STR)(self.z(p)))

    @staticmethod
    def cur():
        if FS._cur is None:
            raise Unsupported("no file system in this contract")
        return FS._cur

    def z(self, p):
        return s_parts(p).z

    # loops: what one iteration writes must not be read by another (checked through the loop frames), and the state
    # after a loop that wrote is unknown
    def save(self): return list(self.over), self.epoch, self.EX, self.ISF, self.base
    def restore(self, st): self.over, self.epoch, self.EX, self.ISF, self.base = list(st[0]), *st[1:]

    def havoc(self):
        self.over = []
        self.change()

    def _wrote(self):
        for fr in ctx().loop_stack:
            fr.writes[id(self)] = self

    def _own(self, z):
        """State of z as set by this very iteration (or, outside loops, this path), if it is certain."""
        newer = set()
        for w, b, depth in reversed(self.over):
            if z3.eq(w, z):
                return b if depth >= len(ctx().loop_stack) and newer <= {b} else None
            newer.add(b)     # may be the same path under another name
        return None

    def _read(self):
        for fr in ctx().loop_stack:
            fr.reads[id(self)] = self

    def _state(self, p, base):
        z = self.z(p)
        own = self._own(z)
        if own is not None:
            return z3.BoolVal(own)
        self._read()
        r = base(z)
        for w, b, _ in self.over:
            r = z3.If(z == w, z3.BoolVal(b), r)
        return z3.simplify(r)

    def set(self, p, b):
        self._wrote()
        self.over.append((self.z(p), b, len(ctx().loop_stack)))

    def exists_z(self, p):
        return self._state(p, self.EX)

    def exists(self, p):
        ctx().event("exists?", simp(s_parts(p)))
        return mkbool(self.exists_z(p))

    def isfile(self, p):
        ctx().event("isfile?", simp(s_parts(p)))
        return mkbool(self._state(p, lambda z: z3.And(self.EX(z), core.TRUE if self.files_only else self.ISF(z))))

    def fault(self, what, exc):
        if self.faults:
            if ctx().decide(ctx().bool("fault:" + what)):
                ctx().event("fault", what)
                raise modelled(exc)

    def write(self, p, what, *info):
        ctx().event(what, simp(s_parts(p)), *info)

    def mkdir(self, p, parents=False, exist_ok=False):
        if not exist_ok and self.exists(p):
            raise modelled(FileExistsError(str(p)))
        self.fault("mkdir", OSError(errno.EACCES, "mkdir"))
        self.write(p, "mkdir")
        self.set(p, True)

    def remove(self, p, missing_ok=False):
        if not bool(self.exists(p)):
            if missing_ok:
                return
            raise modelled(FileNotFoundError(str(p)))
        self.fault("remove", PermissionError("remove"))
        self.write(p, "remove")
        self.set(p, False)

    def rename(self, a, b):
        if not bool(self.exists(a)):
            raise modelled(FileNotFoundError(str(a)))
        self.write(a, "rename", simp(s_parts(b)))
        self.set(a, False)
        self.set(b, True)

    def open(self, p, mode="r", *a, **k):
        if "r" in mode and "+" not in mode:
            if not bool(self.exists(p)):
                raise modelled(FileNotFoundError(str(p)))
            self.fault("open", PermissionError("open"))
            ctx().event("open-read", simp(s_parts(p)))
            return RFile(self, p)
        self.fault("open-write", PermissionError("open"))
        self.write(p, "open-write", mode)
        self.set(p, True)
        return WFile(self, p)


class RFile:
    def __init__(self, fs, p):
        self.fs, self.p, self.at = fs, p, 0

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass

    def readline(self):
        if self.at:
            raise Unsupported("second read from a file")
        self.at += 1
        return self.fs.text(self.p, "rawline")

    def read(self, *a):
        if self.at:
            raise Unsupported("second read from a file")
        self.at += 1
        return self.fs.text(self.p, "content")

    def dv_next(self, *default):
        line = self.readline()
        if bool(line == ""):
            ctx().fact(line.strip().z == strlit(""))
            if default:
                return default[0]
            raise modelled(StopIteration())
        return line

    def __iter__(self):
        raise Unsupported("iteration over file")


class WFile:
    def __init__(self, fs, p):
        self.fs, self.p = fs, p
        self.closed = False

    def __enter__(self): return self

    def __exit__(self, et=None, *a):
        self.close()
        return False

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.fault("close", OSError(errno.ENOSPC, "close"))
            ctx().event("close", simp(s_parts(self.p)))

    def write(self, data):
        self.fs.fault("write", OSError(errno.ENOSPC, "write"))
        ctx().event("write", simp(s_parts(self.p)), data)
        return 1

    def flush(self): pass


# ------------------------------------------------------------------------------- logging
class NullLog:
    def __init__(self, name=""):
        self.handlers = []

    def _x(self, *a, **k): return None
    debug = info = warning = warn = error = exception = critical = log = setLevel = addHandler = removeHandler = setFormatter = addFilter = _x
    def isEnabledFor(self, *a): return False
    def getChild(self, *a): return self
    def hasHandlers(self): return False
    level = 30


def build_logging():
    import logging as rl
    m = ShimModule("logging", rl, getLogger=lambda *a: NullLog(), DEBUG=10, INFO=20, WARNING=30, ERROR=40,
                   CRITICAL=50, Handler=type("Handler", (), {"emit": lambda s, r: None}), Logger=NullLog,
                   NullHandler=type("NullHandler", (), {}), StreamHandler=lambda *a, **k: NullLog(), Formatter=lambda *a, **k: None)
    return m


# -------------------------------------------------------------------------------------- os
class Environ(VDict):
    """os.environ: symbolic initial contents, later assignments and deletions of symbolic entries."""

    def __init__(self):
        self.sym = {}
        super().__init__()

    def __setitem__(self, key, val):
        if key in self.sym:
            if ctx().loop_stack:
                raise Unsupported("environment written in a loop")
            if not isinstance(val, (str, SStr)):
                raise modelled(TypeError("str expected"))
            self.sym[key] = (core.TRUE, val)
            return
        super().__setitem__(key, val)

    def __delitem__(self, key):
        if key in self.sym:
            if not ctx().decide(self.sym[key][0]):
                raise modelled(KeyError(key))
            self.sym[key] = (core.FALSE, None)
            return
        super().__delitem__(key)

    def pop(self, key, *d):
        if key in self.sym:
            if not ctx().decide(self.sym[key][0]):
                if d:
                    return d[0]
                raise modelled(KeyError(key))
            r = self.sym[key][1]
            self.sym[key] = (core.FALSE, None)
            return r
        return super().pop(key, *d)

    def update(self, *a, **k):
        for x in a:
            for q in (x if not isinstance(x, Environ) else _uns("environ update")):
                self[q] = x[q]
        for q in k:
            self[q] = k[q]

    def setdefault(self, key, val=None):
        if key in self.sym:
            if not ctx().decide(self.sym[key][0]):
                self[key] = val
            return self.sym[key][1]
        return super().setdefault(key, val)

    def copy(self):
        return EnvCopy(self)

    def get(self, key, default=None):
        if key in self.sym:
            present, val = self.sym[key]
            return val if ctx().decide(present) else default
        return super().get(key, default)

    def __getitem__(self, key):
        if key in self.sym:
            r = self.get(key)
            if r is None:
                raise modelled(KeyError(key))
            return r
        return super().__getitem__(key)

    def __contains__(self, key):
        if key in self.sym:
            return ctx().decide(self.sym[key][0])
        return super().__contains__(key)


class EnvCopy(Environ):
    """A snapshot of the environment."""

    def __init__(self, e):
        super().__init__()
        self.sym = dict(e.sym)


def build_os(fs, environ):
    path = ShimModule("os.path", posixpath, join=pjoin, exists=lambda p: fs.exists(p), isfile=lambda p: fs.isfile(p),
                      isdir=lambda p: fs.exists(p), basename=basename, dirname=dirname, expanduser=expanduser,
                      abspath=lambda p: p, realpath=lambda p: p, sep="/",
                      splitext=lambda p: posixpath.splitext(p) if isinstance(p, str) else _uns("splitext"),
                      isabs=lambda p: posixpath.isabs(p) if isinstance(p, str) else _uns("isabs"),
                      normpath=lambda p: p)
    def makedirs(p, mode=0o777, exist_ok=False):
        fs.mkdir(p, True, exist_ok)
    m = ShimModule("os", ros, path=path, environ=environ, getenv=lambda k, d=None: environ.get(k, d), sep="/",
                   putenv=lambda k, v: _uns("putenv"), unsetenv=lambda k: _uns("unsetenv"),
                   makedirs=makedirs, mkdir=lambda p, *a: fs.mkdir(p), remove=lambda p: fs.remove(p),
                   unlink=lambda p: fs.remove(p), rename=fs.rename, replace=fs.rename,
                   fspath=lambda p: p.s if isinstance(p, SPath) else p, PathLike=SPath, getcwd=lambda: "/cwd",
                   linesep="\n", name="posix")
    return m, path


def _uns(w):
    raise Unsupported(w)


# ------------------------------------------------------------------------------- network
class Response:
    """requests.Response of the download: symbolic status, unknown number of chunks."""

    def __init__(self, net, url):
        self.net, self.url = net, url
        c = ctx()
        self.bad = core.FALSE if net.good else c.bool("http-error")
        self.headers = Headers()
        self.headers.length = net.length
        self.status_code = SNum(c.int("status"), core.FALSE, None, "int")
        c.fact(z3.And(self.status_code.r >= 100, self.status_code.r < 600,
                      self.bad == (self.status_code.r >= 400)))
        self.closed = False

    def raise_for_status(self):
        import requests
        ctx().event("raise_for_status", self.url)
        if ctx().decide(self.bad):
            ctx().event("fault", "http-error")
            raise modelled(requests.exceptions.HTTPError("bad status"))

    @property
    def ok(self):
        return mkbool(z3.Not(self.bad))

    def iter_content(self, chunk_size=1, decode_unicode=False):
        net = self.net
        ctx().event("iter_content", self.url)

        def g():
            k = ctx().int("chunk")
            note_key([k])
            net.fs.fault("read-chunk", _req_exc("ChunkedEncodingError"))
            return Chunk(k), [k], z3.And(k >= 0, k < net.nchunks)
        return SymIter(g, "chunks", ordered=True)

    @property
    def content(self):
        self.net.fs.fault("read-content", _req_exc("ChunkedEncodingError"))
        return Content(self.url)

    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _req_exc(n):
    import requests
    return getattr(requests.exceptions, n)("fault")


class Chunk:
    """A piece of the payload; empty chunks (keep-alive) exist."""
    EMPTY = z3.Function("chunk_empty", z3.IntSort(), z3.BoolSort())

    def __init__(self, k): self.k = k
    def __bool__(self): return not ctx().decide(self.EMPTY(self.k))
    def dvlen(self):
        n = z3.Function("chunk_len", z3.IntSort(), z3.IntSort())(self.k)
        ctx().fact(z3.And(n >= 0, (n == 0) == self.EMPTY(self.k)))
        return SNum(n, core.FALSE, None, "int")
    def __len__(self): raise Unsupported("len(chunk)")


class Content:
    def __init__(self, url): self.url = url


class Headers(dict):
    length = None

    def get(self, k, d=None):
        if k.lower() == "content-length":
            if self.length is True or self.length is None and ctx().decide(ctx().bool("has-content-length")):
                return SStr.atom(z3.Const(ctx().fresh("content-length"), STR))
            return d
        raise Unsupported("header %s" % k)

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise modelled(KeyError(k))
        return r

    def __contains__(self, k):
        raise Unsupported("header test")


class Net:
    def __init__(self, fs):
        self.fs = fs
        self.nchunks = z3.Int("in:nchunks")
        self.calls = []
        self.good = False        # only successful answers
        self.length = None       # content-length header: True/False/None (either)

    def get(self, url, params=None, **kw):
        ctx().event("http-get", simp(s_parts(url)), kw)
        self.fs.fault("connect", _req_exc("ConnectionError"))
        ctx().assume(self.nchunks >= 0)
        return Response(self, url)

    def session(self):
        raise Unsupported("requests.Session")


def build_requests(net):
    import requests
    exc = ShimModule("requests.exceptions", requests.exceptions)
    for n in ("HTTPError", "ConnectionError", "RequestException", "ChunkedEncodingError", "Timeout"):
        exc.__dict__[n] = getattr(requests.exceptions, n)
    return ShimModule("requests", requests, get=net.get, exceptions=exc, HTTPError=requests.exceptions.HTTPError,
                      ConnectionError=requests.exceptions.ConnectionError,
                      RequestException=requests.exceptions.RequestException), exc


class Tar:
    def __init__(self, fs, p):
        self.fs, self.p = fs, p

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass

    def extractall(self, path=".", members=None, *, numeric_owner=False, filter=None):
        if members is not None:
            raise Unsupported("extractall members")
        ctx().event("extract-start", simp(s_parts(self.p)), simp(s_parts(path)), filter)
        self.fs.fault("extract", rtarfile.ReadError("truncated"))
        self.fs.change()
        ctx().event("extracted", simp(s_parts(self.p)), simp(s_parts(path)), filter)

    def __getattr__(self, n):
        raise Unsupported("tar.%s" % n)


def build_tarfile(fs):
    def topen(name=None, mode="r", fileobj=None, **k):
        if fileobj is not None:
            raise Unsupported("tarfile fileobj")
        if not bool(fs.exists(name)):
            raise modelled(FileNotFoundError("tar"))
        fs.fault("tar-open", rtarfile.ReadError("not a tar"))
        return Tar(fs, name)
    return ShimModule("tarfile", rtarfile, open=topen, ReadError=rtarfile.ReadError,
                      data_filter=rtarfile.data_filter, TarError=rtarfile.TarError)


# ---------------------------------------------------------------------------------- h5py
class H5Obj:
    """HDF5 group/file: children (VDict) and attributes (VDict)."""

    def __init__(self, attrs=None, children=None, name="/"):
        self.attrs = attrs if attrs is not None else VDict()
        self.children = children if children is not None else VDict()
        self.name = name

    def __getitem__(self, k):
        if isinstance(k, str) and "/" in k:
            o = self
            for x in k.strip("/").split("/"):
                o = o[x]
            return o
        return self.children[k]

    def __contains__(self, k): return HOOKS.contains(self.children, k)
    def keys(self): return self.children.keys()
    def get(self, k, d=None): return self.children.get(k, d)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("h5py object .%s" % n)


class H5Data:
    """HDF5 dataset over a symbolic array."""

    def __init__(self, arr, attrs=None):
        self.arr, self.attrs = arr, attrs if attrs is not None else VDict()

    def __getitem__(self, k):
        if isinstance(k, tuple) and not k:
            k = Ellipsis
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis:
            return self.arr.copy()
        return self.arr[k].copy() if isinstance(self.arr[k], SArr) else self.arr[k]

    shape = property(lambda s: s.arr.shape)
    dtype = property(lambda s: s.arr.dtype)
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("h5py dataset .%s" % n)


class H5WGroup(H5Obj):
    def create_group(self, name):
        g = H5WGroup(name=name)
        self.children[name] = g
        ctx().event("h5-group", name)
        return g

    require_group = create_group

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        d = H5WData(shape, dtype, data)
        self.children[name] = d
        return d

    def __setitem__(self, k, v):
        self.children[k] = H5WData(None, None, v)


class H5WData:
    def __init__(self, shape, dtype, data):
        self.attrs = VDict()
        self.shape_, self.data = shape, data
        self.dt = rnp.dtype(dtype) if dtype is not None else None

    def __setitem__(self, k, v):
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)) or k == ():
            self.data = v.copy() if isinstance(v, SArr) else v
            return
        raise Unsupported("h5py partial write")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("h5py dataset .%s" % n)


def build_h5py(files=None, written=None):
    import h5py
    files = files if files is not None else {}

    def File(name, mode="r", **k):
        s = simp(s_parts(name))
        if mode == "r":
            ctx().event("h5-open", s)
            if callable(files):
                return files(s)
            raise Unsupported("h5py read without a file model")
        if mode in ("a", "w-", "x") and ctx().decide(FS.cur().exists(s).z):
            # an earlier file may hold anything, in particular the same groups
            raise modelled(FileExistsError("file exists") if mode != "a" else ValueError("Unable to create group (name already exists)"))
        if mode in ("w", "a", "w-", "x"):
            ctx().event("h5-create", s, mode)
            g = H5WGroup()
            if written is not None:
                written.append((s, g))
            return g
        raise Unsupported("h5py mode")
    return ShimModule("h5py", h5py, File=File, Group=H5Obj, Dataset=H5Data)


# ------------------------------------------------------------------------------- the rest
class AppDirs:
    def __init__(self, *a, **k):
        self.args = a
        self.user_data_dir = SStr.atom(z3.Const("in:user_data_dir", STR))
        self.user_config_dir = SStr.atom(z3.Const("in:user_config_dir", STR))

    def __getattr__(self, n):
        raise Unsupported("AppDirs.%s" % n)


def standard_shims(fs=None, environ=None, net=None, h5=None, extra=None, np_extra=None, yaml_load=None):
    """The shim modules for one World."""
    fs = fs or FS()
    environ = environ if environ is not None else Environ()
    net = net or Net(fs)
    FS._cur = fs
    m = {}
    np_ = shims.build_numpy()
    if np_extra:
        np_.__dict__.update(np_extra)
    m["numpy"] = np_
    import numpy.typing
    m["numpy.typing"] = numpy.typing
    m["numpy.ma"] = np_.ma
    da = shims.build_dask()
    dask = ShimModule("dask")
    dask.__dict__["array"] = da
    m["dask"], m["dask.array"] = dask, da
    integ, interp = shims.build_scipy()
    scipy = ShimModule("scipy")
    scipy.__dict__.update(integrate=integ, interpolate=interp)
    m["scipy"], m["scipy.integrate"], m["scipy.interpolate"] = scipy, integ, interp
    m["xarray"] = ShimModule("xarray", None, DataArray=shims.XrDataArray)
    m["logging"] = build_logging()
    m["os"], m["os.path"] = build_os(fs, environ)
    pl = ShimModule("pathlib", None, Path=SPath, PurePath=SPath)
    m["pathlib"] = pl
    m["requests"], m["requests.exceptions"] = build_requests(net)
    m["tarfile"] = build_tarfile(fs)
    m["h5py"] = h5 or build_h5py()
    m["tempfile"] = ShimModule("tempfile", None, gettempdir=lambda: SStr.atom(z3.Const("in:tempdir", STR)))
    m["platformdirs"] = ShimModule("platformdirs", None, AppDirs=AppDirs, PlatformDirs=AppDirs,
                                   user_data_dir=lambda *a, **k: AppDirs().user_data_dir)

    def load(f, Loader=None):
        if yaml_load is None:
            raise Unsupported("yaml.load without a model")
        ctx().event("yaml-load", simp(s_parts(f.p)))
        return yaml_load(f)
    m["yaml"] = ShimModule("yaml", None, load=load, safe_load=lambda f: load(f), UnsafeLoader="UnsafeLoader",
                           Loader="Loader", SafeLoader="SafeLoader", FullLoader="FullLoader")
    m["tqdm"] = ShimModule("tqdm", None, tqdm=lambda iterable=None, *a, **k: iterable)
    m["warnings"] = ShimModule("warnings", None, warn=lambda *a, **k: ctx().event("warn"),
                               filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None,
                               catch_warnings=shims.ErrState)
    gm = ShimModule("geotiepoints.multilinear", None, MultilinearInterpolator=MultilinearInterpolator)
    m["geotiepoints"] = ShimModule("geotiepoints", None, multilinear=gm)
    m["geotiepoints.multilinear"] = gm
    import __future__
    import contextlib
    import copy as rcopy
    import math
    import operator
    import itertools
    import re
    m.update({"collections.abc": collections.abc, "collections": collections, "typing": typing,
              "functools": functools, "inspect": inspect, "numbers": numbers, "__future__": __future__,
              "sys": rsys, "contextlib": contextlib, "operator": operator, "itertools": itertools, "re": re,
              "copy": ShimModule("copy", None, copy=lambda x: x.copy(),
                                 deepcopy=deepcopy)})
    m["matplotlib"] = ShimModule("matplotlib")
    if extra:
        m.update(extra)
    for x in m.values():
        pass
    return m


def deepcopy(x, memo=None):
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, VDict):
        if x.layers or x.symitems:
            raise Unsupported("deepcopy of symbolic dict")
        r = type(x).__new__(type(x))
        dict.__init__(r)
        r.__dict__.update(x.__dict__)
        r.layers, r.symitems, r.depth = [], [], len(ctx().loop_stack)
        for k, v in dict.items(x):
            dict.__setitem__(r, k, deepcopy(v))
        return r
    if isinstance(x, VList):
        return VList(deepcopy(v) for v in x)
    if isinstance(x, (SNum, SStr, SBool, str, int, float, bool, type(None), rnp.generic)):
        return x
    if isinstance(x, SDict):
        return x.copy()
    raise Unsupported("deepcopy of %s" % type(x).__name__)


class MultilinearInterpolator:
    """Assumed contract of geotiepoints: a function ML of the grid (bounds, orders, values) and the
    point, applied to every column of the (dimension x points) matrix; one output row."""

    def __init__(self, smin, smax, orders, values=None, dtype=None):
        self.smin, self.smax, self.orders, self.dtype = smin, smax, orders, dtype
        self.values = values
        ctx().event("ml-init", self)

    def set_values(self, values):
        self.values = values

    def __call__(self, points):
        rows = getattr(points, "rows", None)
        if rows is None or self.values is None:
            raise Unsupported("multilinear interpolation of an unmodelled point matrix")
        c = ctx()
        ML = z3.Function("MULTILINEAR", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
        fns = [r._elem_frozen() for r in rows]

        def elem(i, j):
            es = [f(j).num() for f in fns]
            nan = z3.Or(*[e.nan for e in es]) if any(not z3.is_false(e.nan) for e in es) else core.FALSE
            return El(ML(*[to_real(e.r) for e in es]), nan)
        from dv.shims import undt
        dt = undt(self.dtype) if self.dtype is not None else points.dt
        c.event("ml-call", self, points)
        base = None
        r0 = rows[0]
        if r0.base is not None and r0.base[0] == "flat" and all(
                r.base is not None and r.base[0] == "flat" and r.base[1] == r0.base[1] for r in rows):
            nds = [r.base[3] for r in rows]

            def nd(*i):
                es = [f(*i).num() for f in nds]
                nan = z3.Or(*[e.nan for e in es]) if any(not z3.is_false(e.nan) for e in es) else core.FALSE
                return El(ML(*[to_real(e.r) for e in es]), nan)
            base = ("flat", r0.base[1], r0.base[2], nd)
        return SArr((1, points.dims[1]), elem, dt, "numpy", None, base)


def builtins_for(fs):
    return {"open": lambda p, mode="r", *a, **k: fs.open(p, mode)}


def mkworld(overrides=None, fs=None, extra_builtins=None, **kw):
    from dv.loader import World
    fs = fs or FS()
    sh = standard_shims(fs=fs, **kw)
    b = builtins_for(fs)
    b.update(extra_builtins or {})
    w = World(sh, overrides, b)
    w.fs = fs
    return w
