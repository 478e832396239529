"""Builtins seen by the code under test, symbolic containers, and the loop rule.

Loop rule ("map" invariant): a loop over a symbolic collection is executed once for a generic
element K (a Skolem constant), exploring every branch of the body.  If no iteration reads what
another one writes (checked), the state after the loop is, for every element K with guard g(K),
the logged effect of the branch: this is the inductive invariant "all elements visited so far have
been processed, nothing else has changed", instantiated at the end of the loop.
"""
import builtins as rb
import sys
import types
from collections.abc import Mapping
from fractions import Fraction

import numpy as rnp
import z3

from dv import core
from dv.core import Unsupported, ctx, modelled
from dv.values import (STR, NdIndex, Opaque, Q, SArr, SBool, SDtype, SNum, SplitStr, SStr, SType, cast_el, dim_py, dv_round,
                       el_of, mkbool, strlit, strtoken, to_real, token, untoken)


# --------------------------------------------------------------------- substitution
def subst(v, pairs):
    """v with the Skolem constants replaced."""
    if not pairs:
        return v
    if isinstance(v, SNum):
        return SNum(z3.substitute(v.r, *pairs), z3.substitute(v.nan, *pairs), v.dt, v.pyk)
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.z, *pairs))
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else (z3.substitute(p[0], *pairs), p[1]) for p in v.parts])
    if isinstance(v, SArr):
        from dv.values import El

        def f(*idx):
            e = v.elem(*idx)
            if e.b is not None:
                return El(b=z3.substitute(e.b, *pairs))
            return El(z3.substitute(e.r, *pairs), z3.substitute(e.nan, *pairs))
        dims = [d if isinstance(d, int) else z3.substitute(d, *pairs) for d in v.dims]
        r = SArr(dims, f, v.dt, v.kind)
        r.fact_subst = pairs
        return r
    if isinstance(v, VDict):
        r = type(v).__new__(type(v))
        dict.__init__(r)
        r.__dict__.update(v.__dict__)
        r.depth = len(ctx().loop_stack)
        for k, x in dict.items(v):
            dict.__setitem__(r, k, subst(x, pairs))
        r.layers = [l.subst(pairs) for l in v.layers]
        return r
    if isinstance(v, dict):
        return type(v)((k, subst(x, pairs)) for k, x in v.items())
    if isinstance(v, SDict):
        return SDict(v.name, (lambda k: z3.substitute(v._dom(k), *pairs)),
                     (lambda k: subst(v._val(k), pairs)))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, VList):
        r = VList(subst(x, pairs) for x in list.__iter__(v))
        r.layers = [l.subst(pairs) for l in v.layers]
        return r
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    return v


def bsubst(e, pairs):
    return z3.substitute(e, *pairs) if pairs else e


# ------------------------------------------------------------------------ universals
class Universal:
    """forall K. body(K), instantiated over the key terms of the path."""

    def __init__(self, K, body):
        self.K, self.body = list(K), body


def add_universal(K, body):
    c = ctx()
    us = c.__dict__.setdefault("universals", [])
    if us and us[0][0] != c.npaths:
        us.clear()
    us.append((c.npaths, list(K), body))
    for k in keyterms():
        _inst(list(K), body, k)


def keyterms():
    c = ctx()
    kt = c.__dict__.setdefault("kts", {"path": c.npaths, "t": []})
    if kt["path"] != c.npaths:
        kt["path"], kt["t"] = c.npaths, []
    return kt["t"]


def note_key(k):
    """k: list of z3 terms denoting one element of a collection."""
    kt = keyterms()
    if any(len(o) == len(k) and all(z3.eq(a, b) for a, b in zip(o, k)) for o in kt):
        return
    kt.append(list(k))
    c = ctx()
    for p, K, body in list(c.__dict__.get("universals", [])):
        if p == c.npaths:
            _inst(K, body, k)


def _inst(K, body, k):
    if len(K) == len(k) and all(a.sort().eq(b.sort()) for a, b in zip(K, k)):
        ctx().facts.append(z3.substitute(body, *zip(K, k)))


# ------------------------------------------------------------------- symbolic iteration
class SymIter:
    """A symbolic collection being iterated: generic() -> (item, K consts, membership)."""

    def __init__(self, gen, what, ordered=False, owner=None):
        self.gen, self.what, self.owner = gen, what, owner

    def generic(self):
        return self.gen()

    def __contains__(self, key):
        if self.owner is None:
            raise Unsupported("membership in symbolic %s" % self.what)
        return key in self.owner

    def __iter__(self):
        raise Unsupported("iteration over symbolic %s by native code" % self.what)


class Layer:
    """Elements added by a loop: for K with cond(K): value(K)."""

    def __init__(self, K, cond, value, key=None):
        self.K, self.cond, self.value, self.key = list(K), cond, value, key

    def subst(self, pairs):
        # inner Skolems stay, outer ones are replaced
        pr = [p for p in pairs if not any(z3.eq(p[0], k) for k in self.K)]
        return Layer(self.K, bsubst(self.cond, pr), subst(self.value, pr), self.key)

    def at(self, k):
        pr = list(zip(self.K, k))
        return bsubst(self.cond, pr), (lambda: subst(self.value, pr))


class SDict:
    """A symbolic mapping from strings to values: dom(k), val(k)."""

    def __init__(self, name, dom, val):
        self.name, self._dom, self._val = name, dom, val
        self.version = 0

    def _k(self, key):
        if isinstance(key, str):
            return strlit(key)
        if isinstance(key, SStr):
            return key.z
        raise Unsupported("key %r" % type(key))

    def dom(self, key):
        kz = self._k(key)
        note_key([kz])
        return self._dom(kz)

    def __contains__(self, key):
        if not isinstance(key, (str, SStr)):
            return False
        return ctx().decide(self.dom(key))

    def __getitem__(self, key):
        if not isinstance(key, (str, SStr)):
            raise modelled(KeyError(key))
        if not ctx().decide(self.dom(key)):
            raise modelled(KeyError(key))
        return self._val(self._k(key))

    def get(self, key, default=None):
        if ctx().decide(self.dom(key)):
            return self._val(self._k(key))
        return default

    def _gen(self, mk):
        def g():
            k = z3.Const(ctx().fresh("key"), STR)
            note_key([k])
            return mk(k), [k], self._dom(k)
        return g

    def keys(self): return SymIter(self._gen(lambda k: SStr.atom(k)), "dict keys", owner=self)
    def items(self): return SymIter(self._gen(lambda k: (SStr.atom(k), self._val(k))), "dict items")
    def values(self): return SymIter(self._gen(lambda k: self._val(k)), "dict values")
    def dv_iter(self): return self.keys()

    def copy(self):
        return SDict(self.name, self._dom, self._val)

    def __iter__(self):
        raise Unsupported("native iteration over symbolic dict")

    def __len__(self):
        raise Unsupported("len of symbolic dict")

    def __bool__(self):
        k = z3.Const(ctx().fresh("key"), STR)
        note_key([k])
        b = ctx().bool("nonempty")
        if ctx().decide(b):
            ctx().assume(self._dom(k))
            return True
        add_universal([k], z3.Not(self._dom(k)))
        return False

    def __setitem__(self, k, v):
        raise Unsupported("write into symbolic dict")

    def __delitem__(self, k):
        raise Unsupported("delete from symbolic dict")

    def __eq__(self, o):
        raise Unsupported("dict comparison")

    __hash__ = object.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("dict.%s on symbolic dict" % name)


def among(x, names):
    """x equals one of the names (one decision)."""
    zs = []
    for n in names:
        r = x == n
        if r is True:
            return True
        if r is not False:
            zs.append(r.z)
    return ctx().decide(z3.Or(*zs)) if zs else False


def _symkey(k):
    return isinstance(k, SStr) or (isinstance(k, str) and "\u27e6" in k)


class VDict(dict):
    """Dict whose lookups may involve symbolic keys and whose contents may have symbolic layers."""

    def __init__(self, *a, **k):
        self.layers = []
        self.symitems = []        # [(SStr key, value)] exact symbolic keys
        self.depth = len(ctx().loop_stack)
        self.version = 0
        dict.__init__(self)
        for x in a:
            self.update(x)
        for kk, v in k.items():
            self[kk] = v

    # -- reads
    def _read(self, key=None):
        for fr in ctx().loop_stack[self.depth:]:
            if isinstance(key, SStr) and len(key.parts) == 1 and not isinstance(key.parts[0], str) and \
                    not key.parts[0][1] and len(fr.K) == 1 and z3.eq(key.parts[0][0], fr.K[0]):
                continue        # the entry of the loop element itself: only this iteration writes it (apply_log)
            fr.reads[id(self)] = self

    def _find(self, key):
        """-> (found, value)"""
        if isinstance(key, str) and "\u27e6" in key:
            key = untoken(key)
        for fr in reversed(ctx().loop_stack[self.depth:]):
            for ent in reversed(fr.log):
                if ent[0] == "setitem" and ent[1] is self and _same_key(ent[2], key):
                    return True, ent[3]
        self._read(key)
        sym = isinstance(key, SStr)
        if sym and key.concrete() is not None:
            key, sym = key.concrete(), False
        for k, v in reversed(self.symitems):
            r = (k == key)
            if r is True or (not isinstance(r, bool) and bool(r)):
                return True, v
        for l in reversed(self.layers):
            if not isinstance(key, (str, SStr)):
                continue
            kz = [key.z] if sym else [strlit(key)]
            if not all(a.sort().eq(b.sort()) for a, b in zip(l.K, kz)) or len(l.K) != 1:
                raise Unsupported("lookup in layered dict")
            note_key(kz)
            cond, val = l.at(kz)
            if ctx().decide(cond):
                return True, val()
        if not sym:
            try:
                if dict.__contains__(self, key):
                    return True, dict.__getitem__(self, key)
            except TypeError as e:
                raise modelled(TypeError(str(e)))
            return False, None
        # fork over the concrete keys
        for k, v in dict.items(self):
            if isinstance(k, str) and bool(key == k):
                return True, v
        return False, None

    def __getitem__(self, key):
        ok, v = self._find(key)
        if not ok:
            miss = getattr(type(self), "__missing__", None)
            if miss is not None:
                return miss(self, key)
            raise modelled(KeyError(key))
        return v

    def get(self, key, default=None):
        if isinstance(key, SStr) and key.concrete() is None and not self.layers and not self.symitems and \
                not ctx().loop_stack[self.depth:] or isinstance(key, SStr) and key.concrete() is None and \
                not self.layers and not self.symitems and not self._written():
            vals = list(dict.values(self))
            if vals and all(isinstance(v, str) for v in vals) and isinstance(default, (str, SStr)) and \
                    all(isinstance(k, str) for k in dict.keys(self)):
                return table_get(key, list(dict.items(self)), default)
        ok, v = self._find(key)
        return v if ok else default

    def _written(self):
        return any(e[0] == "setitem" and e[1] is self for fr in ctx().loop_stack for e in fr.log)

    def __contains__(self, key):
        if isinstance(key, SStr) and key.concrete() is None and not self.layers and not self.symitems and \
                not self._written() and dict.__len__(self) and all(isinstance(k, str) for k in dict.keys(self)):
            self._read()
            return among(key, dict.keys(self))
        return self._find(key)[0]

    def _plain(self):
        if self.layers or self.symitems:
            raise Unsupported("native iteration over dict with symbolic contents")
        self._read()

    def __iter__(self):
        self._plain()
        return dict.__iter__(self)

    def __len__(self):
        self._plain()
        return dict.__len__(self)

    def __bool__(self):
        if self.layers:
            raise Unsupported("truth of layered dict")
        return bool(self.symitems) or dict.__len__(self) > 0

    def _layer_iter(self, mk):
        if self.symitems or dict.__len__(self) or len({id(l.K[0]) for l in self.layers}) == 0:
            raise Unsupported("iteration over a mixed dict")

        def g():
            k = z3.Const(ctx().fresh("key"), STR)
            note_key([k])
            mem = z3.Or(*[l.at([k])[0] for l in self.layers])
            return mk(k), [k], mem
        return g

    def keys(self):
        if self.layers:
            return SymIter(self._layer_iter(lambda k: SStr.atom(k)), "dict keys", owner=self)
        self._plain()
        return dict.keys(self)

    def items(self):
        if self.layers:
            return SymIter(self._layer_iter(lambda k: (SStr.atom(k), LazyItem(self, k))), "dict items")
        self._plain()
        return dict.items(self)

    def values(self):
        if self.layers:
            raise Unsupported("values of layered dict")
        self._plain()
        return dict.values(self)

    def dv_iter(self):
        return self.keys() if self.layers else None

    # -- writes
    def __setitem__(self, key, val):
        if isinstance(key, str) and "\u27e6" in key:
            key = untoken(key)
        if isinstance(key, SStr) and key.concrete() is not None:
            key = key.concrete()
        if len(ctx().loop_stack) > self.depth:
            for fr in ctx().loop_stack[self.depth:]:
                fr.writes[id(self)] = self
            ctx().loop_stack[-1].log.append(("setitem", self, key, val))
            return
        self.version += 1
        if isinstance(key, SStr):
            for n, (k, v) in enumerate(self.symitems):
                if k == key:
                    self.symitems[n] = (k, val)
                    return
            if self.layers or dict.__len__(self):
                # the key may coincide with an existing one: later lookups search symitems first
                pass
            self.symitems.append((key, val))
            return
        if self.symitems:
            raise Unsupported("concrete write after symbolic key")
        dict.__setitem__(self, key, val)

    def __delitem__(self, key):
        if len(ctx().loop_stack) > self.depth:
            raise Unsupported("delete in symbolic loop")
        if self.layers or isinstance(key, SStr):
            raise Unsupported("delete with symbolic contents")
        if not dict.__contains__(self, key):
            raise modelled(KeyError(key))
        self.version += 1
        dict.__delitem__(self, key)

    def setdefault(self, key, default=None):
        ok, v = self._find(key)
        if ok:
            return v
        self[key] = default
        return default

    def pop(self, key, *d):
        if len(ctx().loop_stack) > self.depth or self.layers or isinstance(key, SStr):
            raise Unsupported("pop with symbolic contents")
        self.version += 1
        return dict.pop(self, key, *d)

    def update(self, *a, **k):
        for x in a:
            if isinstance(x, SDict):
                kk = z3.Const(ctx().fresh("key"), STR)
                self._need_plain_write()
                self.layers.append(Layer([kk], x._dom(kk), x._val(kk)))
                continue
            if isinstance(x, VDict) and (x.layers or x.symitems):
                self._need_plain_write()
                for key, v in dict.items(x):
                    self[key] = v
                self.layers += x.layers
                self.symitems += x.symitems
                continue
            it = x.items() if hasattr(x, "items") else x
            for key, v in it:
                self[key] = v
        for key, v in k.items():
            self[key] = v

    def _need_plain_write(self):
        if len(ctx().loop_stack) > self.depth:
            raise Unsupported("update in symbolic loop")

    def copy(self):
        r = VDict()
        r.update(self)
        return r

    def __copy__(self):
        return self.copy()

    def __eq__(self, o):
        if self.layers or self.symitems or getattr(o, "layers", None) or getattr(o, "symitems", None):
            raise Unsupported("dict comparison")
        return dict.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def clear(self):
        raise Unsupported("clear")

    def popitem(self):
        raise Unsupported("popitem")


class LazyItem:
    def __init__(self, d, k):
        raise Unsupported("items() of layered dict")


def _same_key(a, b):
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.parts == b.parts
    if isinstance(a, SStr) or isinstance(b, SStr):
        return False
    return a == b


def table_get(key, items, default):
    """dict.get on a table str -> str with a symbolic key: conditional term, no fork."""
    d = default.z if isinstance(default, SStr) else strlit(default)
    z = d
    for k, v in reversed(items):
        z = z3.If(key.z == strlit(k), strlit(v), z)
    return SStr.atom(z)


class VList(list):
    """List whose contents may include elements appended by symbolic loops."""

    def __init__(self, *a):
        self.layers = []
        self.depth = len(ctx().loop_stack)
        self._cnt = None
        list.__init__(self, *a)

    def append(self, v):
        if len(ctx().loop_stack) > self.depth:
            for fr in ctx().loop_stack[self.depth:]:
                fr.writes[id(self)] = self
            ctx().loop_stack[-1].log.append(("append", self, None, v))
            return
        if self.layers:
            raise Unsupported("append after symbolic loop")
        list.append(self, v)

    def _read(self):
        for fr in ctx().loop_stack[self.depth:]:
            fr.reads[id(self)] = self

    def count_info(self):
        """(n, k1): number of selected elements and the key of the first one."""
        if self._cnt is None:
            if list.__len__(self):
                raise Unsupported("mixed list")
            c = ctx()
            n = c.int("count")
            l0 = self.layers[0]
            mk = lambda: [z3.Const(c.fresh("key"), k.sort()) for k in l0.K]
            k1, k2 = mk(), mk()
            note_key(k1)
            note_key(k2)
            sel = lambda k: z3.Or(*[l.at(k)[0] for l in self.layers])
            eqk = lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])
            c.facts.append(n >= 0)
            c.facts.append(z3.Implies(n >= 1, sel(k1)))
            c.facts.append(z3.Implies(n >= 2, z3.And(sel(k2), z3.Not(eqk(k1, k2)))))
            K = mk()
            add_universal(K, z3.Implies(sel(K), z3.And(n >= 1, z3.Implies(n == 1, eqk(K, k1)))))
            # K selected and different from k1 => n >= 2 follows from the line above
            self._cnt = (n, k1, k2, sel)
        return self._cnt

    def dvlen(self):
        self._read()
        if not self.layers:
            return list.__len__(self)
        return SNum(self.count_info()[0], core.FALSE, None, "int")

    def __len__(self):
        if self.layers:
            raise Unsupported("native len of symbolic list")
        self._read()
        return list.__len__(self)

    def __bool__(self):
        if not self.layers:
            self._read()
            return list.__len__(self) > 0
        return ctx().decide(self.count_info()[0] > 0)

    def __getitem__(self, i):
        self._read()
        if not self.layers:
            if isinstance(i, SNum):
                i = i.__index__()
            try:
                r = list.__getitem__(self, i)
            except IndexError as e:
                raise modelled(IndexError(str(e)))
            return VList(r) if isinstance(i, slice) else r
        n, k1, k2, sel = self.count_info()
        if i in (0, -1) and not isinstance(i, slice):
            if not ctx().decide(n >= 1):
                raise modelled(IndexError("list index out of range"))
            k = k1
            if i == -1 and ctx().decide(n >= 2):
                k = k2
            for l in self.layers[:-1]:
                cond, val = l.at(k)
                if ctx().decide(cond):
                    return val()
            return self.layers[-1].at(k)[1]()
        raise Unsupported("element of symbolic list")

    def pop(self, i=-1):
        self._read()
        if len(ctx().loop_stack) > self.depth:
            raise Unsupported("pop in a symbolic loop")
        if not self.layers:
            try:
                return list.pop(self, i)
            except IndexError as e:
                raise modelled(IndexError(str(e)))
        r = self[i]
        if not ctx().decide(self.count_info()[0] == 1):
            raise Unsupported("pop from a longer symbolic list")
        self.layers, self._cnt = [], None
        return r

    def __iter__(self):
        if self.layers:
            raise Unsupported("native iteration over symbolic list")
        self._read()
        return list.__iter__(self)

    def dv_iter(self):
        if not self.layers:
            return None

        def g():
            l = self.layers[0]
            k = [z3.Const(ctx().fresh("key"), x.sort()) for x in l.K]
            note_key(k)
            cond, val = l.at(k)
            if len(self.layers) == 1:
                return val(), k, cond
            # branches are exclusive: conditional value
            alts = [x.at(k) for x in self.layers]
            vals = [x[1]() for x in alts]
            mem = z3.Or(*[x[0] for x in alts])
            if all(isinstance(x, (str, SStr)) for x in vals):
                z = [x.z if isinstance(x, SStr) else strlit(x) for x in vals]
                r = z[-1]
                for (cd, _), zz in reversed(list(zip(alts[:-1], z[:-1]))):
                    r = z3.If(cd, zz, r)
                return SStr.atom(r), k, mem
            raise Unsupported("iteration over multi-branch list")
        return SymIter(g, "list")

    def __contains__(self, x):
        if self.layers:
            raise Unsupported("in on symbolic list")
        return any(bool(x == y) for y in list.__iter__(self))

    def __eq__(self, o):
        if self.layers or getattr(o, "layers", None):
            raise Unsupported("list comparison")
        return list.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __add__(self, o):
        if self.layers or getattr(o, "layers", None):
            raise Unsupported("list concatenation")
        return VList(list.__add__(self, list(o)))

    def __iadd__(self, o):
        for x in o:
            self.append(x)
        return self

    def extend(self, o):
        for x in o:
            self.append(x)

    def copy(self):
        r = VList(list.__iter__(self))
        r.layers = list(self.layers)
        return r


class SymList:
    """An input list of unknown length: elements mem(K) with value(K), K one z3 constant."""

    def __init__(self, sort, mem, val, what="list"):
        self.sort, self.mem, self.val, self.what = sort, mem, val, what

    def dv_iter(self):
        def g():
            k = z3.Const(ctx().fresh("key"), self.sort)
            note_key([k])
            return self.val(k), [k], self.mem(k)
        return SymIter(g, self.what)

    def __iter__(self):
        raise Unsupported("native iteration over symbolic list")

    def __bool__(self):
        k = z3.Const(ctx().fresh("key"), self.sort)
        note_key([k])
        b = ctx().bool("nonempty")
        if ctx().decide(b):
            ctx().assume(self.mem(k))
            return True
        add_universal([k], z3.Not(self.mem(k)))
        return False

    def __contains__(self, x):
        raise Unsupported("in on symbolic list")

    def __len__(self):
        raise Unsupported("len of symbolic list")

    def __getitem__(self, i):
        raise Unsupported("index into symbolic list")


# ----------------------------------------------------------------------------- loop rule
class Poison:
    """Value of a loop variable after a symbolic loop."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("use of loop-carried variable %s" % object.__getattribute__(self, "_n"))

    def __getattribute__(self, name):
        if name in ("__class__",):
            return Poison
        object.__getattribute__(self, "_bad")()

    for _m in ("add radd sub rsub mul rmul truediv rtruediv pow rpow lt le gt ge eq ne bool len iter getitem setitem "
               "call contains neg abs and or invert hash str repr format index int float").split():
        locals()["__%s__" % _m] = _bad


class LoopFrame:
    def __init__(self, prefix, id_="L"):
        self.prefix, self.id = prefix, id_
        self.names = {}
        self.decisions = []
        self.conds = []
        self.log = []
        self.reads = {}
        self.writes = {}

    def decide(self, c, cond):
        i = len(self.decisions)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            ft, ff = c.feasible(cond), c.feasible(z3.Not(cond))
            if ft == "unsat" and ff == "unsat":
                raise core.Infeasible()
            val, forced = (False, True) if ft == "unsat" else ((True, True) if ff == "unsat" else (True, False))
        self.decisions.append((val, forced))
        x = cond if val else z3.Not(cond)
        c.pc.append(x)
        self.conds.append(x)
        return val


class _Break:
    pass


BREAK = _Break()


class Ret:
    def __init__(self, value):
        self.value = value


def sub_explore(fn, K, mem, cells=()):
    """All branches of fn() for the generic element.  -> list of dict(guard, out, exc, log, events, cells)"""
    c = ctx()
    base_pc, base_ev, base_ob = list(c.pc), list(c.events), len(c.obligations)
    before = [(cell, _cell(cell)) for cell in cells]
    pending, out = [[]], []
    n = 0
    lid = c.fresh("L")
    while pending:
        prefix = pending.pop()
        n += 1
        if n > 600:
            raise core.PathLimit("loop body branches")
        fr = LoopFrame(prefix, lid)
        fr.K = K
        c.pc = base_pc + [mem]
        c.events = []
        saved = [(o, o.save()) for o in c.states]
        c.loop_stack.append(fr)
        exc = res = None
        inf = False
        try:
            res = fn()
        except core.Infeasible:
            inf = True
        except core.EngineStop:
            raise
        except Exception as e:  # noqa
            exc = e
        finally:
            c.loop_stack.pop()
            for o, st in saved:
                o.restore(st)
        for i in range(len(prefix), len(fr.decisions)):
            v, forced = fr.decisions[i]
            if not forced:
                pending.append(fr.decisions[:i] + [(not v, True)])
        changed = []
        for cell, old in before:
            new = _cell(cell)
            if new is not old:
                changed.append((cell, new))
            if old is not _MISSING:
                cell.cell_contents = old
            elif new is not _MISSING:
                del cell.cell_contents
        if not inf:
            out.append(dict(guard=z3.And(*fr.conds) if fr.conds else core.TRUE, res=res, exc=exc, log=fr.log,
                            events=c.events, cells=changed, reads=fr.reads, writes=fr.writes))
    c.pc, c.events = base_pc, base_ev
    reads, writes = {}, {}
    for b in out:
        reads.update(b["reads"])
        writes.update(b["writes"])
    for k in writes:
        if k in reads:
            raise Unsupported("loop-carried dependency through a container")
    return out


_MISSING = object()


def _cell(cell):
    try:
        return cell.cell_contents
    except ValueError:
        return _MISSING


def run_loop(it, body):
    c = ctx()
    item, K, mem = it.generic()
    cells = [cell for name, cell in zip(body.__code__.co_freevars, body.__closure__ or ())]
    nonlocal_names = set(body.__code__.co_freevars)
    pred = getattr(it, "pred", None)
    br = sub_explore((lambda: body(item)) if pred is None else (lambda: body(item) if pred(item) else None), K, mem, cells)
    # exceptions, returns and breaks: does some element take that branch?
    for b in br:
        if b["exc"] is not None or isinstance(b["res"], Ret) or b["res"] is BREAK:
            if b["res"] is BREAK and (any(x["log"] or x["events"] for x in br)):
                raise Unsupported("break out of a symbolic loop with effects")
            if b["log"] or (b["exc"] is None and b["events"]):
                raise Unsupported("effects before leaving a symbolic loop")
            if any(x["log"] or x["events"] for x in br if x is not b) and b["exc"] is None:
                raise Unsupported("return out of a symbolic loop with effects")
            flag = c.bool("leaves")
            if SBool(flag):
                c.assume(z3.And(mem, b["guard"]))
                c.feas_check = True
                if b["exc"] is not None:
                    # effects of earlier iterations are unspecified: the caller sees the exception
                    for x in br:
                        if x["log"]:
                            for e in x["log"]:
                                if hasattr(e[1], "depth"):
                                    e[1].layers.append(Layer(K, c.bool("part"), None))
                        if x["events"] and x is not b:
                            c.events.append(("loop-partial", K, mem, x["guard"], x["events"]))
                    c.events.extend(b["events"])
                    raise b["exc"]
                if b["res"] is BREAK:
                    for cell, new in b["cells"]:
                        cell.cell_contents = new
                    return None
                return b["res"]
            add_universal(K, z3.Implies(mem, z3.Not(b["guard"])))
    poison = {}
    evs = []
    for o in c.states:
        if any(id(o) in b["writes"] for b in br):
            o.havoc()
    for b in br:
        if b["exc"] is not None or isinstance(b["res"], Ret) or b["res"] is BREAK:
            continue
        for cell, new in b["cells"]:
            poison[id(cell)] = cell
        apply_log(b, K, mem)
        if b["events"]:
            evs.append((b["guard"], b["events"]))
    if evs:
        c.events.append(("loop", K, mem, evs))
    for cell in poison.values():
        cell.cell_contents = Poison("loop variable")
    return None


def apply_log(b, K, mem):
    c = ctx()
    for op, cont, key, val in b["log"]:
        if op == "append":
            if len(c.loop_stack) > cont.depth:
                raise Unsupported("nested symbolic append")
            if any(not (len(l.K) == len(K) and all(z3.eq(x, y) for x, y in zip(l.K, K))) for l in cont.layers):
                raise Unsupported("list filled by two symbolic loops")
            if sum(1 for e in b["log"] if e[0] == "append" and e[1] is cont) > 1:
                raise Unsupported("two appends per element")
            cont.layers.append(Layer(K, z3.And(mem, b["guard"]), val))
        elif op == "setitem":
            if isinstance(key, SStr) and len(key.parts) == 1 and not isinstance(key.parts[0], str) and \
                    not key.parts[0][1] and len(K) == 1 and z3.eq(key.parts[0][0], K[0]):
                if len(c.loop_stack) > cont.depth:
                    raise Unsupported("nested symbolic store into an outer dict")
                cont.layers.append(Layer(K, z3.And(mem, b["guard"]), val))
                cont.version += 1
            else:
                raise Unsupported("store under a key that is not the loop element")
        elif op == "setattr":
            raise Unsupported("attribute store in a symbolic loop")


# ------------------------------------------------------------------------------- hooks
class Hooks:
    BREAK = BREAK
    Ret = Ret

    @staticmethod
    def q(text):
        return Q(Fraction(text))

    @staticmethod
    def mkdict(d):
        r = VDict()
        for k, v in d.items():
            r[k] = v
        return r

    @staticmethod
    def mklist(x):
        return VList(x)

    @staticmethod
    def fpart(val, conv, spec):
        if isinstance(val, SStr) and conv in (-1, 115) and not spec:
            return val
        if conv == 114:
            return repr(val)
        if conv == 115:
            val = BUILTINS["str"](val)
            if isinstance(val, SStr):
                return val
        if isinstance(val, (SArr, Opaque, SBool)):
            return "<value>"
        if hasattr(val, "dv_str"):
            return val.dv_str()
        return format(val, spec)

    @staticmethod
    def fstr(parts):
        if any(isinstance(p, SStr) for p in parts):
            out = []
            for p in parts:
                p = untoken(p) if isinstance(p, str) else p
                out.extend(p.parts if isinstance(p, SStr) else [p])
            return SStr(out)
        return Hooks.fin("".join(parts))

    @staticmethod
    def fin(s):
        if isinstance(s, str) and "\u27e6" in s:
            return untoken(s)
        return s

    @staticmethod
    def fmt(s, *a, **k):
        if isinstance(s, str):
            conv = lambda v: (strtoken(v) if isinstance(v, SStr) else
                              ("<value>" if isinstance(v, (SArr, Opaque, SBool)) else
                               (v.dv_str() if hasattr(v, "dv_str") else v)))
            a = [conv(v) for v in a]
            a = [strtoken(v) if isinstance(v, SStr) else v for v in a]
            k = {n: conv(v) for n, v in k.items()}
            return Hooks.fin(s.format(*a, **k))
        return s.format(*a, **k)

    @staticmethod
    def join(s, *a, **k):
        if isinstance(s, str) and len(a) == 1 and not k:
            if isinstance(a[0], SplitStr):
                return a[0].joined(s)
            xs = list(a[0])
            if any(isinstance(x, SStr) for x in xs):
                out = []
                for n, x in enumerate(xs):
                    if n:
                        out.append(s)
                    out.extend(x.parts if isinstance(x, SStr) else [x])
                return SStr(out)
            return s.join(xs)
        return s.join(*a, **k)

    @staticmethod
    def strmod(s, a):
        t = a if isinstance(a, tuple) else (a,)
        try:
            t = tuple(strtoken(x) if isinstance(x, SStr) else
                      (1.5 if isinstance(x, (SNum, SArr, Opaque)) else x) for x in t)
            return Hooks.fin(s % t)
        except TypeError:
            return s

    @staticmethod
    def contains(cont, x):
        if isinstance(x, SStr) and x.concrete() is None and (
                isinstance(cont, (list, tuple, set, frozenset)) and not getattr(cont, "layers", None) or
                type(cont).__name__ == "dict_keys" or type(cont) is dict) and \
                all(isinstance(y, str) and "\u27e6" not in y for y in (
                    list.__iter__(cont) if isinstance(cont, list) else cont)):
            if isinstance(cont, VList):
                cont._read()
            return among(x, [y for y in (list.__iter__(cont) if isinstance(cont, list) else cont)])
        if isinstance(cont, (list, tuple)) and not isinstance(cont, VList):
            return any(bool(x == y) if not (x is y) else True for y in cont)
        if isinstance(cont, (set, frozenset)) and isinstance(x, SStr):
            return any(bool(x == y) for y in cont)
        if isinstance(cont, str) and isinstance(x, SStr):
            raise Unsupported("symbolic substring test")
        if isinstance(x, SStr) and isinstance(cont, dict) and not isinstance(cont, VDict):
            return any(isinstance(k, str) and bool(x == k) for k in cont)
        if type(cont).__name__ in ("dict_keys",) and isinstance(x, SStr):
            return any(isinstance(k, str) and bool(x == k) for k in cont)
        return x in cont

    @staticmethod
    def setattr(obj, name, val):
        depth = len(ctx().loop_stack)
        d = getattr(obj, "__dict__", None)
        if isinstance(d, dict) and not isinstance(obj, types.ModuleType):
            if not d and sys._getframe(1).f_code.co_name == "__init__":
                d["_dv_born"] = depth      # first store by its constructor: created here
        if depth and isinstance(d, dict) and d.get("_dv_born", 0) >= depth:
            setattr(obj, name, val)
            return
        if ctx().loop_stack and not isinstance(obj, types.SimpleNamespace):
            fr = ctx().loop_stack[-1]
            old = getattr(obj, name, None)
            if old is val or (isinstance(val, (str, int, float)) and not isinstance(val, bool) and
                              isinstance(old, type(val)) and old == val):
                return
            raise Unsupported("attribute store in a symbolic loop")
        setattr(obj, name, val)

    @staticmethod
    def iter(x):
        f = getattr(type(x), "dv_iter", None)
        if f is not None:
            r = x.dv_iter()
            return x if r is None else r
        return x

    @staticmethod
    def is_symiter(x):
        return isinstance(x, SymIter)

    run_loop = staticmethod(run_loop)

    @staticmethod
    def comp(kind, it, cond, elt, n):
        it = Hooks.iter(it)
        if not isinstance(it, SymIter):
            def gen():
                for x in it:
                    args = tuple(x) if n else (x,)
                    if cond(*args):
                        yield elt(*args)
            if kind == "list":
                return VList(gen())
            if kind == "set":
                return set(gen())
            if kind == "dict":
                r = VDict()
                for k, v in gen():
                    r[k] = v
                return r
            return gen()
        if kind == "dict":
            acc = VDict()

            def body(x):
                args = tuple(x) if n else (x,)
                if cond(*args):
                    k, v = elt(*args)
                    acc[k] = v
        elif kind in ("list", "gen"):
            acc = VList()

            def body(x):
                args = tuple(x) if n else (x,)
                if cond(*args):
                    acc.append(elt(*args))
        else:
            raise Unsupported("symbolic set comprehension")
        run_loop(it, body)
        return acc


HOOKS = Hooks()


# ---------------------------------------------------------------------------- builtins
def dv_len(x):
    f = getattr(type(x), "dvlen", None)
    if f is not None:
        return x.dvlen()
    if isinstance(x, SStr):
        return SNum(z3.Function("strlen", STR, z3.IntSort())(x.z), core.FALSE, None, "int")
    return len(x)


def dv_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(dv_isinstance(x, c) for c in cls)
    import numbers
    if isinstance(cls, types.UnionType):
        return any(dv_isinstance(x, c) for c in cls.__args__)
    if hasattr(type(x), "dv_isinstance"):
        return x.dv_isinstance(cls)
    if isinstance(x, SStr):
        if hasattr(x, "dtype") and isinstance(cls, type) and issubclass(rnp.str_, cls):
            return True
        return cls is str or cls is object or cls is BUILTINS["str"]
    if cls is BUILTINS["str"] or cls is str:
        return isinstance(x, str)
    if cls is BUILTINS["float"] or cls is float:
        if isinstance(x, SNum):
            return (x.dt is None and x.pyk == "float") or (x.dt is not None and x.dt == rnp.dtype("f8"))
        return isinstance(x, float)
    if cls is BUILTINS["int"] or cls is int:
        if isinstance(x, SNum):
            return x.dt is None and x.pyk == "int"
        if isinstance(x, SBool):
            return True
        return isinstance(x, int)
    if cls is bool:
        return isinstance(x, (bool, SBool))
    if cls in (VDict, dict):
        return isinstance(x, (dict, SDict))
    if cls is Mapping or cls is dict:
        if hasattr(type(x), "dv_ismap"):
            return x.dv_ismap()
    if cls is Mapping:
        return isinstance(x, (dict, SDict, Mapping))
    if cls in (VList, list) or cls is BUILTINS["list"]:
        return isinstance(x, (list, SymList))
    if isinstance(cls, SType):
        return isinstance(x, SNum) and x.dt == cls.dt
    if isinstance(x, SNum) and isinstance(cls, type) and issubclass(cls, rnp.generic):
        return x.dt is not None and issubclass(x.dt.type, cls)
    if isinstance(x, SNum) and cls in (numbers.Number, numbers.Real, numbers.Complex):
        return True
    if isinstance(x, SNum) and cls in (numbers.Integral, numbers.Rational):
        return z3.is_int(x.r)
    return isinstance(x, cls)


def dv_issubclass(c, cls):
    if isinstance(cls, tuple):
        return any(dv_issubclass(c, x) for x in cls)
    un = lambda t: t.dt.type if isinstance(t, SType) else {BUILTINS["str"]: str, BUILTINS["int"]: int, BUILTINS["float"]: float}.get(t, t)
    return issubclass(un(c), un(cls))


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, SNum):
            if x.dt is None and x.pyk == "int":
                return x
            if not z3.is_false(x.nan) and ctx().decide(x.nan):
                raise modelled(ValueError("cannot convert float NaN to integer"))
            e = cast_el(x.el(), rnp.dtype("i8"))
            return SNum(e.r, core.FALSE, None, "int")
        if isinstance(x, SBool):
            return SNum(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)), core.FALSE, None, "int")
        if isinstance(x, Q):
            return int(x.q) if not a else int(x, *a)
        if isinstance(x, SStr):
            f = z3.Function("int-of-str", STR, z3.IntSort())
            return SNum(f(x.z), core.FALSE, None, "int")
        if isinstance(x, SArr):
            return cls(x.item())
        return int(x, *a)

    def __instancecheck__(cls, x):
        return dv_isinstance(x, int)


class dv_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, SNum):
            return SNum(to_real(x.r), x.nan, None, "float")
        if isinstance(x, Q):
            return x
        if isinstance(x, SArr):
            return cls(x.item())
        if isinstance(x, SStr):
            raise Unsupported("float of symbolic string")
        r = float(x)
        return r

    def __instancecheck__(cls, x):
        return dv_isinstance(x, float)


class dv_float(metaclass=_FloatMeta):
    pass


class _StrMeta(type):
    def __call__(cls, x="", *a):
        if isinstance(x, SStr):
            return x
        if isinstance(x, SNum):
            return untoken(token(x))
        if isinstance(x, (SArr, Opaque, SBool)):
            return "<value>"
        if hasattr(x, "dv_str"):
            return x.dv_str(*a)
        return Hooks.fin(str(x, *a))

    def __instancecheck__(cls, x):
        return isinstance(x, (str, SStr))


class dv_str(metaclass=_StrMeta):
    lower = staticmethod(lambda s: s.lower())


class SFilter:
    """filter() of a symbolic collection: the predicate is part of every iteration."""

    def __init__(self, fn, it):
        self.fn, self.it = (fn or (lambda x: bool(x))), it

    def dv_iter(self):
        r = SymIter(self.it.gen, self.it.what)
        inner = getattr(self.it, "pred", None)
        r.pred = self.fn if inner is None else (lambda x: inner(x) and self.fn(x))
        return r

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic filter")


def dv_filter(fn, x):
    it = Hooks.iter(x)
    return SFilter(fn, it) if isinstance(it, SymIter) else filter(fn, it)


class SRange:
    """range() with a symbolic bound."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def dv_iter(self):
        def g():
            k = ctx().int("k")
            note_key([k])
            return SNum(k, core.FALSE, None, "int"), [k], z3.And(k >= self.lo, k < self.hi)
        return SymIter(g, "range")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")


def dv_range(*a):
    if any(isinstance(x, SNum) for x in a):
        vals = [z3.simplify(x.r) if isinstance(x, SNum) else z3.IntVal(int(x)) for x in a]
        if all(z3.is_int_value(v) for v in vals):
            return range(*[v.as_long() for v in vals])
        if len(a) == 1:
            return SRange(z3.IntVal(0), vals[0])
        if len(a) == 2:
            return SRange(vals[0], vals[1])
        raise Unsupported("range step")
    return range(*a)


def dv_list(x=()):
    it = Hooks.iter(x)
    if isinstance(it, SymIter):
        return Hooks.comp("list", x, lambda v: True, lambda v: v, 0)
    return VList(it)


class _ListMeta(type):
    def __call__(cls, x=()):
        return dv_list(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (list, SymList))


class dv_list_t(metaclass=_ListMeta):
    pass


def dv_sorted(x, **k):
    it = Hooks.iter(x)
    if isinstance(it, SymIter):
        raise Unsupported("sorted on symbolic collection")
    xs = list(it)
    if any(isinstance(v, (SNum, SStr)) for v in xs):
        raise Unsupported("sorted on symbolic values")
    return VList(sorted(xs, **k))


def _mm(name):
    def f(*a, **k):
        vals = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
        if len(a) == 1 and isinstance(a[0], SArr):
            raise Unsupported("builtin %s on array" % name)
        if any(isinstance(v, SNum) for v in vals):
            if k:
                raise Unsupported(name)
            r = vals[0]
            for v in vals[1:]:
                if bool(v < r if name == "min" else v > r):
                    r = v
            return r
        if len(a) == 1 and isinstance(Hooks.iter(a[0]), SymIter):
            raise Unsupported("%s over symbolic collection" % name)
        return getattr(rb, name)(*a, **k)
    return f


def _anyall(name):
    def f(x):
        if isinstance(Hooks.iter(x), SymIter) or getattr(x, "layers", None):
            raise Unsupported("%s over symbolic collection" % name)
        return getattr(rb, name)(x)
    return f


def dv_sum(x, *a):
    if isinstance(Hooks.iter(x), SymIter) or isinstance(x, SArr) or getattr(x, "layers", None):
        raise Unsupported("sum over symbolic collection")
    return sum(x, *a)


def dv_next(*a):
    if hasattr(type(a[0]), "dv_next"):
        return a[0].dv_next(*a[1:])
    if any(getattr(x, "layers", None) for x in a[:1]) or isinstance(a[0], (VList, SymIter)):
        l = a[0]
        if isinstance(l, VList):
            if l:
                return l[0]
            if len(a) > 1:
                return a[1]
            raise modelled(StopIteration())
        raise Unsupported("next on symbolic iterator")
    return next(*a)


def dv_zip(*a, **k):
    if any(isinstance(Hooks.iter(x), SymIter) for x in a):
        raise Unsupported("zip over symbolic collection")
    return zip(*a, **k)


def dv_enumerate(x, *a):
    if isinstance(Hooks.iter(x), SymIter):
        raise Unsupported("enumerate over symbolic collection")
    return enumerate(x, *a)


def dv_hasattr(o, n):
    try:
        getattr(o, n)
    except AttributeError:
        return False
    return True


def dv_print(*a, **k):
    return None


BUILTINS = dict(len=dv_len, isinstance=dv_isinstance, issubclass=dv_issubclass, int=dv_int, float=dv_float, str=dv_str, range=dv_range,
                list=dv_list_t, dict=VDict, sorted=dv_sorted, min=_mm("min"), max=_mm("max"), any=_anyall("any"),
                all=_anyall("all"), sum=dv_sum, zip=dv_zip, enumerate=dv_enumerate, hasattr=dv_hasattr,
                round=lambda x, *a: dv_round(x) if isinstance(x, SNum) and not a else round(x, *a),
                print=dv_print, next=dv_next, filter=dv_filter)
