"""Byte strings and numpy text values (scalars and arrays) with symbolic content."""
import z3

import numpy as rnp

from dv import core
from dv.core import Unsupported
from dv.values import STR, SDtype, SNum, SStr, ctx, dimz, modelled

BYTES = z3.DeclareSort("Bytes")


def decoded(z, enc="utf-8"):
    enc = str(enc).lower().replace("_", "-")
    enc = {"utf8": "utf-8"}.get(enc, enc)
    return z3.Function("decode:" + enc, BYTES, STR)(z)


def valid(z, enc="utf-8"):
    """the bytes are text in this encoding"""
    enc = str(enc).lower().replace("_", "-")
    enc = {"utf8": "utf-8"}.get(enc, enc)
    if enc in ("latin-1", "iso-8859-1", "latin1"):
        return core.TRUE
    return z3.Function("valid:" + enc, BYTES, z3.BoolSort())(z)


class SBytes:
    """bytes (npy: numpy.bytes_, a subclass of bytes)"""

    def __init__(self, z, npy=False):
        self.z, self._npy = z, npy
        if npy:
            self.dtype, self.size, self.ndim, self.shape = SDtype("S8"), 1, 0, ()
            self.item = lambda: SBytes(z)
            self.tobytes = lambda: _uns("tobytes")

    def decode(self, encoding="utf-8", errors="strict"):
        if not ctx().decide(valid(self.z, encoding)):
            if errors == "strict":
                raise modelled(UnicodeDecodeError(str(encoding), b"?", 0, 1, "invalid start byte"))
            return SStr.atom(z3.Function("decode:%s:%s" % (encoding, errors), BYTES, STR)(self.z))
        return SStr.atom(decoded(self.z, encoding))

    def dv_isinstance(self, cls):
        return cls in (bytes, object) or (self._npy and cls in (rnp.bytes_, rnp.character, rnp.generic, rnp.flexible))

    def dv_str(self, *a):
        if a:
            return self.decode(*a)
        return "<bytes>"

    def __bool__(self): raise Unsupported("truth of bytes")
    def __eq__(self, o): return _uns("bytes ==") if not isinstance(o, str) else False
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("__") or not (hasattr(bytes, n) or self._npy and hasattr(rnp.bytes_, n)):
            raise AttributeError(n)
        raise Unsupported("bytes.%s" % n)


def _uns(n):
    raise Unsupported(n)


class NpStr(SStr):
    """numpy.str_: text with a dtype"""

    def _init(self):
        self.dtype, self.size, self.ndim, self.shape = SDtype("U8"), 1, 0, ()
        return self

    def item(self): return SStr(self.parts)


def npstr(z):
    return NpStr(SStr.atom(z).parts)._init()


class TextArr:
    """numpy array of text/bytes/objects; `at(i...)` gives the elements as Python values"""

    def __init__(self, dims, kind, first):
        self.dims, self.first = tuple(dims), first
        self.dtype = SDtype({"S": "S8", "U": "U8", "O": "O"}[kind])

    @property
    def ndim(self): return len(self.dims)

    @property
    def shape(self):
        return tuple(d if isinstance(d, int) else SNum(dimz(d), core.FALSE, None, "int") for d in self.dims)

    @property
    def size(self):
        r = z3.IntVal(1)
        for d in self.dims:
            r = r * dimz(d)
        r = z3.simplify(r)
        return r.as_long() if z3.is_int_value(r) else SNum(r, core.FALSE, None, "int")

    def dvlen(self):
        if not self.dims:
            raise modelled(TypeError("len() of unsized object"))
        return self.shape[0]

    def _one(self):
        return ctx().decide(z3.And(*[dimz(d) == 1 for d in self.dims]) if self.dims else core.TRUE)

    def item(self, *a):
        if a:
            raise Unsupported("item(i)")
        if not self._one():
            raise modelled(ValueError("can only convert an array of size 1 to a Python scalar"))
        return self.first

    def tolist(self):
        if not self.dims:
            return self.first
        raise Unsupported("tolist")

    def __getitem__(self, k):
        if k == () and not self.dims or len(self.dims) == 1 and isinstance(k, int) and k == 0:
            if self.dims and ctx().decide(dimz(self.dims[0]) < 1):
                raise modelled(IndexError("index 0 is out of bounds"))
            f = self.first
            if isinstance(f, SBytes) and self.dtype.kind == "S":
                return SBytes(f.z, True)
            if isinstance(f, SStr) and self.dtype.kind == "U":
                return NpStr(f.parts)._init()
            return f
        raise Unsupported("index into a text array")

    def ravel(self):
        raise Unsupported("ravel")

    def dv_isinstance(self, cls):
        return cls is object or getattr(cls, "__name__", "") in ("NDArray", "ndarray")

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(rnp.ndarray, n):
            raise AttributeError(n)
        raise Unsupported("ndarray.%s of text" % n)
