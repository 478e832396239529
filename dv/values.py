"""Symbolic values: exact decimals, booleans, numbers, strings and arrays.

Numbers are mathematical reals with a NaN flag (machine rounding and overflow to
infinity are not modelled; see the assumption list).  Arrays have symbolic
extents and an element function index -> term, so a statement about a generic
index is a statement about every element of every array of every size.
"""
import math
import numbers
from fractions import Fraction

import numpy as rnp
import z3

from dv import core, prover
from dv.core import Unsupported, ctx, modelled

F8, F4, I8, I2, B1 = (rnp.dtype(x) for x in ("f8", "f4", "i8", "i2", "?"))


# --------------------------------------------------------------------------- exact floats
class Q(float):
    """A float literal together with its exact decimal value."""

    def __new__(cls, val):
        fr = val if isinstance(val, Fraction) else Fraction(repr(float(val)) if isinstance(val, float) else val)
        try:
            f = float(fr)
        except OverflowError:
            f = math.inf if fr > 0 else -math.inf
        self = super().__new__(cls, f)
        self.q = fr
        return self

    def _bin(self, o, op, rev=False):
        if isinstance(o, (SNum, SArr)):
            return NotImplemented
        f = exact(o)
        if f is None:
            return NotImplemented
        a, b = (f, self.q) if rev else (self.q, f)
        return Q(op(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / b, True)
    def __neg__(self): return Q(-self.q)
    def __pos__(self): return self
    def __abs__(self): return Q(abs(self.q))

    def __pow__(self, o, mod=None):
        if isinstance(o, (SNum, SArr)):
            return NotImplemented
        if exact(o) is not None and exact(o).denominator == 1:
            return Q(self.q ** int(exact(o)))
        return float(self) ** o

    def __eq__(self, o):
        f = exact(o)
        return NotImplemented if f is None else self.q == f

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        f = exact(o)
        return NotImplemented if f is None else self.q < f

    def __le__(self, o):
        f = exact(o)
        return NotImplemented if f is None else self.q <= f

    def __gt__(self, o):
        f = exact(o)
        return NotImplemented if f is None else self.q > f

    def __ge__(self, o):
        f = exact(o)
        return NotImplemented if f is None else self.q >= f

    def __hash__(self):
        return hash(self.q)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (Q, (self.q,))


def exact(o):
    if isinstance(o, Q):
        return o.q
    if isinstance(o, (bool, rnp.bool_)):
        return Fraction(int(o))
    if isinstance(o, (int, rnp.integer)):
        return Fraction(int(o))
    if isinstance(o, (float, rnp.floating)):
        f = float(o)
        if math.isnan(f) or math.isinf(f):
            return None
        return Fraction(repr(f))
    return None


def rv(fr):
    fr = Fraction(fr)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def to_real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


# --------------------------------------------------------------------------- booleans
class SBool:
    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().decide(self.z)

    def _b(self, o, op):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(op(self.z, core.as_bool(o)))

    def __and__(self, o): return self._b(o, z3.And)
    __rand__ = __and__
    def __or__(self, o): return self._b(o, z3.Or)
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, z3.Xor)
    def __invert__(self): return SBool(z3.Not(self.z))

    def __eq__(self, o):
        try:
            return SBool(self.z == core.as_bool(o))
        except Unsupported:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (~r) if isinstance(r, SBool) else not r

    def __hash__(self):
        return 7

    def __index__(self):
        return 1 if bool(self) else 0

    def __sub__(self, o):     # units[(wavelength is True) - 1] and the like
        return (1 if bool(self) else 0) - o

    dtype = property(lambda self: SDtype(B1))

    def any(self): return self
    def all(self): return self
    def item(self): return self

    def __repr__(self):
        return "SBool(%s)" % self.z


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


# --------------------------------------------------------------------------- dtypes
class SType:
    """Scalar type object of a dtype: callable conversion."""

    def __init__(self, dt):
        self.dt = rnp.dtype(dt)
        self.__name__ = self.dt.name

    def __call__(self, x=0):
        return cast_any(x, self.dt)

    def __eq__(self, o):
        try:
            return self.dt == undt(o)
        except Exception:
            return False

    def __hash__(self):
        return hash(self.dt)


class SDtype:
    def __init__(self, dt):
        self.dt = rnp.dtype(dt)

    kind = property(lambda s: s.dt.kind)
    name = property(lambda s: s.dt.name)
    itemsize = property(lambda s: s.dt.itemsize)
    char = property(lambda s: s.dt.char)
    str = property(lambda s: s.dt.str)
    type = property(lambda s: SType(s.dt))

    def __eq__(self, o):
        try:
            return self.dt == undt(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.dt)

    def __repr__(self):
        return repr(self.dt)


def undt(d):
    if d is None:
        return None
    if isinstance(d, (SDtype, SType)):
        return d.dt
    if d is float:
        return F8
    if d is int:
        return I8
    if d is bool:
        return B1
    return rnp.dtype(d)


# --------------------------------------------------------------------------- scalars
NANINT = z3.Function("NANINT", z3.RealSort(), z3.IntSort())
ROUND = z3.Function("ROUND", z3.RealSort(), z3.IntSort())
WRAP16 = z3.Function("WRAP", z3.IntSort(), z3.IntSort(), z3.IntSort())


class El:
    """An element: numeric (r, nan) or boolean (b)."""
    __slots__ = ("r", "nan", "b")

    def __init__(self, r=None, nan=core.FALSE, b=None):
        self.r, self.nan, self.b = r, nan, b

    def num(self):
        if self.b is not None:
            return El(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))
        return self

    def boolean(self):
        if self.b is not None:
            return self.b
        return z3.Or(self.nan, self.r != 0)


def el_of(x):
    if isinstance(x, SNum):
        return El(x.r, x.nan)
    if isinstance(x, SBool):
        return El(b=x.z)
    if isinstance(x, (bool, rnp.bool_)):
        return El(b=z3.BoolVal(bool(x)))
    if isinstance(x, (int, rnp.integer)) and not isinstance(x, Q):
        return El(z3.IntVal(int(x)))
    if isinstance(x, (float, rnp.floating)):
        if isinstance(x, Q):
            return El(rv(x.q))
        f = float(x)
        if math.isnan(f):
            return El(z3.RealVal(0), core.TRUE)
        if math.isinf(f):
            raise Unsupported("infinite constant")
        return El(rv(Fraction(repr(f))))
    raise Unsupported("not a number: %r" % type(x))


def dt_token(x):
    """The operand np.result_type must see for x."""
    if isinstance(x, SArr):
        return x.dt
    if isinstance(x, SNum):
        if x.dt is not None:
            return x.dt
        return 1 if x.pyk == "int" else 1.0
    if isinstance(x, SBool):
        return True
    if isinstance(x, Q):
        return 1.0
    if isinstance(x, (rnp.generic, rnp.ndarray)):
        return x.dtype
    if isinstance(x, (bool, int, float)):
        return type(x)(1)
    raise Unsupported("operand %r" % type(x))


def result_dt(*xs):
    return rnp.result_type(*[x.dt if isinstance(x, (SType, SDtype)) else
                             rnp.dtype(x) if isinstance(x, (type, rnp.dtype, str)) else dt_token(x) for x in xs])


def _arith(op, a, b):
    """Element arithmetic on numeric El."""
    a, b = a.num(), b.num()
    nan = z3.Or(a.nan, b.nan) if not (z3.is_false(a.nan) and z3.is_false(b.nan)) else core.FALSE
    x, y = a.r, b.r
    if op in ("add", "sub", "mul", "min", "max", "floordiv", "mod"):
        if z3.is_int(x) != z3.is_int(y):
            x, y = to_real(x), to_real(y)
        if op == "add":
            return El(x + y, nan)
        if op == "sub":
            return El(x - y, nan)
        if op == "mul":
            return El(x * y, nan)
        if op == "min":
            return El(z3.If(x <= y, x, y), nan)
        if op == "max":
            return El(z3.If(x >= y, x, y), nan)
        if op == "floordiv":
            if z3.is_int(x):
                raise Unsupported("integer floor division")
            return El(z3.ToReal(z3.ToInt(x / y)), z3.Or(nan, y == 0))
        raise Unsupported(op)
    if op == "div":
        x, y = to_real(x), to_real(y)
        ys = z3.simplify(y)
        if z3.is_rational_value(ys) and ys.as_fraction() != 0:
            return El(x / y, nan)
        return El(x / y, z3.Or(nan, z3.And(y == 0, x == 0)))
    if op == "pow":
        ys = z3.simplify(y)
        if z3.is_int_value(ys) or (z3.is_rational_value(ys) and ys.denominator_as_long() == 1):
            n = ys.as_long() if z3.is_int_value(ys) else ys.numerator_as_long()
            if abs(n) > 12:
                raise Unsupported("large power")
            if n == 0:
                return El(z3.RealVal(1))
            p = x
            for _ in range(abs(n) - 1):
                p = p * x
            if n < 0:
                p = z3.RealVal(1) / to_real(p)
            return El(p, nan)
        x, y = to_real(x), to_real(y)
        return El(prover.POW(x, y), z3.Or(nan, x < 0))
    raise Unsupported(op)


def _cmp(op, a, b):
    if a.b is not None and b.b is not None and op in ("eq", "ne"):
        return a.b == b.b if op == "eq" else a.b != b.b
    a, b = a.num(), b.num()
    x, y = a.r, b.r
    if z3.is_int(x) != z3.is_int(y):
        x, y = to_real(x), to_real(y)
    ok = [z3.Not(n) for n in (a.nan, b.nan) if not z3.is_false(n)]
    c = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y,
         "eq": lambda: x == y, "ne": lambda: x != y}[op]()
    if not ok:
        return c
    if op == "ne":
        return z3.Or(z3.Not(z3.And(*ok)), c)
    return z3.And(*(ok + [c]))


def binop(op, a, b):
    if isinstance(a, rnp.ndarray) and not isinstance(a, SArr):
        a = from_concrete(a)
    if isinstance(b, rnp.ndarray) and not isinstance(b, SArr):
        b = from_concrete(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            return ew(lambda x, y: El(b=_cmp(op, x, y)), a, b, dtype=B1)
        dt = result_dt(a, b)
        if op == "div" and dt.kind != "f":
            dt = F8
        if dt.kind == "b" and op in ("add", "mul"):
            raise Unsupported("boolean arithmetic")
        r = ew(lambda x, y: fit(_arith(op, x, y), dt), a, b, dtype=dt)
        if op in ("div", "pow") and isinstance(r, SArr) and r.kind == "masked":
            # numpy.ma masks what is not finite
            g, m0 = r._elem_frozen(), r.maskfn
            r = SArr(r.dims, g, r.dt, "masked", lambda *i: z3.Or(m0(*i) if m0 is not None else core.FALSE, g(*i).num().nan), r.base)
        return r
    ea, eb = el_of(a), el_of(b)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        return mkbool(_cmp(op, ea, eb))
    py = all((not isinstance(x, (SNum,)) and not isinstance(x, rnp.generic)) or
             (isinstance(x, SNum) and x.dt is None) for x in (a, b))
    if py:
        if op == "div":
            if ctx().decide(to_real(eb.num().r) == 0):
                raise modelled(ZeroDivisionError("division by zero"))
        r = _arith(op, ea, eb)
        return SNum(r.r, r.nan, None, "int" if z3.is_int(r.r) else "float")
    dt = result_dt(a, b)
    if op == "div" and dt.kind != "f":
        dt = F8
    r = fit(_arith(op, ea, eb), dt)
    return SNum(r.r, r.nan, dt)


def fit(e, dt):
    """Represent element e in dtype dt (real sort for floats, int sort for ints)."""
    if dt.kind == "f":
        e = e.num()
        return El(to_real(e.r), e.nan) if z3.is_int(e.r) else e
    return e


INTRANGE = {}


def cast_el(e, dt):
    """numpy astype semantics for one element."""
    dt = rnp.dtype(dt)
    if dt.kind == "b":
        return El(b=e.boolean())
    e = e.num()
    if dt.kind == "f":
        return El(to_real(e.r), e.nan)
    if dt.kind in "iu":
        r = e.r
        if z3.is_int(r):
            t = r
        else:
            t = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
            if not z3.is_false(e.nan):
                t = z3.If(e.nan, NANINT(r), t)
        if dt.itemsize < 8:
            info = rnp.iinfo(dt)
            if z3.is_int_value(t) and info.min <= t.as_long() <= info.max:
                return El(t)
            w = WRAP16(z3.IntVal(dt.itemsize), t)
            ctx().fact(z3.And(w >= info.min, w <= info.max))
            if not z3.is_false(e.nan):
                ctx().fact(z3.And(NANINT(r) >= info.min, NANINT(r) <= info.max))
            t = z3.If(z3.And(t >= info.min, t <= info.max), t, w)
        return El(t)
    raise Unsupported("cast to %s" % dt)


def cast_any(x, dt):
    dt = rnp.dtype(dt)
    if isinstance(x, SArr):
        return x.astype(dt)
    if isinstance(x, rnp.ndarray):
        return from_concrete(x).astype(dt)
    if dt.kind in "SUO":
        return dt.type(x)
    e = cast_el(el_of(x), dt)
    if dt.kind == "b":
        return SBool(e.b)
    return SNum(e.r, e.nan, dt)


class SNum:
    """A symbolic scalar.  dt None: python number, else numpy scalar."""

    def __init__(self, r, nan=core.FALSE, dt=None, pyk=None, kind="numpy"):
        self.r, self.nan, self.dt = r, nan, (rnp.dtype(dt) if dt is not None else None)
        self.pyk = pyk or ("int" if z3.is_int(r) else "float")

    def el(self):
        return El(self.r, self.nan)

    def __add__(self, o): return _nb("add", self, o)
    def __radd__(self, o): return _nb("add", o, self)
    def __sub__(self, o): return _nb("sub", self, o)
    def __rsub__(self, o): return _nb("sub", o, self)
    def __mul__(self, o): return _nb("mul", self, o)
    def __rmul__(self, o): return _nb("mul", o, self)
    def __truediv__(self, o): return _nb("div", self, o)
    def __rtruediv__(self, o): return _nb("div", o, self)
    def __floordiv__(self, o): return _nb("floordiv", self, o)
    def __pow__(self, o): return _nb("pow", self, o)
    def __rpow__(self, o): return _nb("pow", o, self)
    def __lt__(self, o): return _nb("lt", self, o)
    def __le__(self, o): return _nb("le", self, o)
    def __gt__(self, o): return _nb("gt", self, o)
    def __ge__(self, o): return _nb("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SStr, tuple, list, dict)):
            return False
        return _nb("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, SStr, tuple, list, dict)):
            return True
        return _nb("ne", self, o)

    def __hash__(self):
        return 11

    def __neg__(self): return SNum(-self.r, self.nan, self.dt, self.pyk)
    def __pos__(self): return self
    def __abs__(self): return SNum(z3.If(self.r >= 0, self.r, -self.r), self.nan, self.dt, self.pyk)

    def __bool__(self):
        return ctx().decide(z3.Or(self.nan, self.r != 0))

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round(ndigits)")
        return dv_round(self)

    def __format__(self, spec):
        return token(self, spec)

    def __str__(self):
        return token(self, "")
    __repr__ = __str__

    def __index__(self):
        s = z3.simplify(self.r)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("symbolic value used as a concrete index")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() on a symbolic value")

    # numpy scalar interface
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if self.dt is None:
            if hasattr(float if self.pyk == "float" else int, name):
                raise Unsupported("number.%s" % name)
            raise modelled(AttributeError("python number has no attribute %s" % name))
        if name == "dtype":
            return SDtype(self.dt)
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "T":
            return self
        if name in ("astype", "clip", "ravel", "reshape", "item", "min", "max", "copy", "round", "flatten"):
            return getattr(self, "_np_" + name)
        if hasattr(rnp.float64, name):
            raise Unsupported("numpy scalar attribute %s" % name)
        raise modelled(AttributeError("numpy scalar has no attribute %s" % name))

    def _np_astype(self, dt, copy=True): return cast_any(self, undt(dt))
    def _np_clip(self, lo=None, hi=None, min=None, max=None):
        return clip(self, lo if lo is not None else min, hi if hi is not None else max)
    def _np_ravel(self): return SArr((1,), lambda i: self.el(), self.dt)
    _np_flatten = _np_ravel
    def _np_reshape(self, *shape): return SArr((), lambda: self.el(), self.dt).reshape(*shape)
    def _np_item(self): return SNum(self.r, self.nan, None, "int" if self.dt.kind in "iu" else "float")
    def _np_min(self): return self
    def _np_max(self): return self
    def _np_copy(self): return self

    def is_integer(self):
        raise Unsupported("is_integer")


numbers.Real.register(SNum)


def _nb(op, a, b):
    try:
        return binop(op, a, b)
    except Unsupported:
        if isinstance(a, (str, bytes, tuple, list, dict, type(None))) or \
                isinstance(b, (str, bytes, tuple, list, dict, type(None))):
            if op in ("lt", "le", "gt", "ge", "add", "sub", "mul", "div", "pow"):
                raise modelled(TypeError("unsupported operand types"))
        raise


def dv_round(x):
    if isinstance(x, SNum):
        if z3.is_int(x.r):
            return x
        n = ROUND(x.r)
        ctx().fact(z3.And(z3.ToReal(n) - x.r <= rv(Fraction(1, 2)), x.r - z3.ToReal(n) <= rv(Fraction(1, 2))))
        if x.dt is not None:
            return SNum(z3.ToReal(n), x.nan, x.dt)
        return SNum(n, core.FALSE, None, "int")
    return round(x)


TOKENS = {}


def token(x, spec=""):
    key = x.r.get_id() if isinstance(x, SNum) else id(x)
    name = "\u27e6%s:%d%s\u27e7" % ("n", key, "|" + spec if spec else "")
    TOKENS[name] = x
    return name


# --------------------------------------------------------------------------- strings
STR = z3.DeclareSort("Str")
_LITS = {}
STRCAT = {}
UPLOW = {}


def strlit(s):
    if s not in _LITS:
        _LITS[s] = z3.Const("str:" + s, STR)
    return _LITS[s]


def distinct_literals(exprs):
    """Literal string constants in exprs are pairwise different."""
    found = {}
    for e in exprs:
        for t in prover.features(e)[2]:
            found[t.decl().name()] = t
    if len(found) > 1:
        return [z3.Distinct(*found.values())]
    return []


class SplitStr:
    """The pieces of a symbolic text between separators; joining them again replaces the separator."""

    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def __iter__(self): raise Unsupported("pieces of a symbolic string")
    def __len__(self): raise Unsupported("pieces of a symbolic string")
    def __getitem__(self, i): raise Unsupported("pieces of a symbolic string")
    def __eq__(self, o): raise Unsupported("pieces of a symbolic string")
    __hash__ = None

    def joined(self, glue):
        return self.s if glue == self.sep else self.s.replace(self.sep, glue)


class SStr:
    """A symbolic string: concatenation of literal parts and (transformed) atoms.

    An atom is a z3 constant of sort Str with a per-character transformation
    (lower case, deletion or replacement of single characters), kept in a
    canonical form so that commuting operations compare equal.
    """

    def __init__(self, parts):
        merged = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if merged and isinstance(merged[-1], str):
                    merged[-1] += p
                    continue
            merged.append(p)
        self.parts = tuple(merged)

    @staticmethod
    def atom(zterm, tr=()):
        return SStr([(zterm, tuple(tr))])

    def concrete(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    @property
    def z(self):
        zs = []
        for p in self.parts:
            if isinstance(p, str):
                zs.append(strlit(p))
            else:
                zs.append(apply_tr(p[0], p[1]))
        if not zs:
            return strlit("")
        if len(zs) == 1:
            return zs[0]
        n = len(zs)
        if n not in STRCAT:
            STRCAT[n] = z3.Function("concat%d" % n, *([STR] * (n + 1)))
        return STRCAT[n](*zs)

    def _map(self, cf, step):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(cf(p))
            else:
                out.append((p[0], canon_tr(p[1] + (step,))))
        r = SStr(out)
        c = r.concrete()
        return c if c is not None else r

    def lower(self): return self._map(lambda s: s.lower(), ("lower",))
    def upper(self): return self._map(lambda s: s.upper(), ("upper",))

    def replace(self, a, b, n=-1):
        if isinstance(a, str) and isinstance(b, str) and len(a) == 1 and n == -1 and len(b) <= 1:
            return self._map(lambda s: s.replace(a, b), ("repl", a, b))
        raise Unsupported("str.replace on a symbolic string")

    def strip(self, *a):
        return self._map(lambda s: s, ("strip",)) if len(self.parts) == 1 and not a else self._uns("strip")

    def split(self, sep=None, n=-1):
        return SplitStr(self, sep) if isinstance(sep, str) and len(sep) == 1 and n == -1 else self._uns("split")

    def _uns(self, n):
        raise Unsupported("str.%s on a symbolic string" % n)

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(self.parts + (o,))
        if isinstance(o, SStr):
            return SStr(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr((o,) + self.parts)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, str):
            o = SStr([o])
        if not isinstance(o, SStr):
            return False
        if self.parts == o.parts:
            return True
        a, b = self.concrete(), o.concrete()
        if a is not None and b is not None:
            return a == b
        x, y = self.parts, o.parts
        if a is None and b is None or min(len(x), len(y)) == 0:
            pass
        else:  # a literal against a composed text: literal ends and the total length must fit
            lit, t = (a, y) if a is not None else (b, x)
            if isinstance(t[0], str) and not lit.startswith(t[0]) or isinstance(t[-1], str) and not lit.endswith(t[-1]) or \
                    any(isinstance(q, str) and q not in lit for q in t) or sum(len(q) for q in t if isinstance(q, str)) > len(lit):
                return False
        return mkbool(self.z == o.z)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 13

    def __bool__(self):
        if any(isinstance(q, str) and q for q in self.parts):
            return True
        return ctx().decide(self.z != strlit(""))

    def __format__(self, spec):
        if spec:
            raise Unsupported("format spec on a symbolic string")
        return strtoken(self)

    def __str__(self):
        return strtoken(self)

    def __repr__(self):
        return "'" + strtoken(self) + "'"

    def endswith(self, s):
        return self._pred("endswith", s)

    def startswith(self, s):
        return self._pred("startswith", s)

    def _pred(self, name, s):
        if not isinstance(s, str):
            raise Unsupported(name)
        p = self.parts
        edge = p[-1] if name == "endswith" else p[0]
        if isinstance(edge, str):
            if len(edge) >= len(s):
                return getattr(edge, name)(s)
            other = edge if name == "endswith" else edge
            if not (s.endswith(other) if name == "endswith" else s.startswith(other)):
                return False
        f = z3.Function("%s:%s" % (name, s), STR, z3.BoolSort())
        return mkbool(f(self.z))

    def __contains__(self, s):
        if isinstance(s, str):
            if any(isinstance(p, str) and s in p for p in self.parts):
                return True
            f = z3.Function("contains:%s" % s, STR, z3.BoolSort())
            return ctx().decide(f(self.z))
        raise Unsupported("in on symbolic string")

    def encode(self, *a):
        raise Unsupported("encode")

    def __fspath__(self):
        return strtoken(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported("str.%s on a symbolic string" % name)
        raise modelled(AttributeError("'str' object has no attribute %r" % name))


CHARS = [chr(i) for i in range(32, 127)]


def canon_tr(steps):
    """Canonical form of a chain of per-character maps."""
    if any(s[0] == "strip" for s in steps):
        return steps
    tab = {c: c for c in CHARS}
    low = up = False
    for s in steps:
        if s[0] == "table":
            m = dict(s[1])
            tab = {c: "".join(m.get(x, x) for x in v) for c, v in tab.items()}
            low, up = low or s[2], up or s[3]
        elif s[0] == "lower":
            tab = {c: v.lower() for c, v in tab.items()}
            low = True
        elif s[0] == "upper":
            tab = {c: v.upper() for c, v in tab.items()}
            up = True
        else:
            tab = {c: v.replace(s[1], s[2]) for c, v in tab.items()}
    if low and up:
        raise Unsupported("mixed case mappings")
    diff = tuple(sorted((c, v) for c, v in tab.items() if c != v))
    if not diff:
        return ()
    return (("table", diff, low, up),)


_TRF = {}


def apply_tr(z, tr):
    if not tr:
        return z
    if tr not in _TRF:
        _TRF[tr] = z3.Function("charmap%d" % len(_TRF), STR, STR)
    # a literal can be evaluated
    name = z.decl().name() if z3.is_const(z) else ""
    if name.startswith("str:"):
        s = name[4:]
        for st in tr:
            if st[0] == "table":
                m = dict(st[1])
                s = "".join(m.get(c, c) for c in s)
            else:
                s = s.strip()
        return strlit(s)
    return _TRF[tr](z)


STRTOK = {}


def strtoken(s):
    key = "\u27e6s:%s\u27e7" % "+".join(p if isinstance(p, str) else "%d/%s" % (p[0].get_id(), p[1])
                                     for p in s.parts)
    STRTOK[key] = s
    return key


def untoken(s):
    """Turn a plain str that contains string tokens back into an SStr."""
    if "\u27e6" not in s:
        return s
    out, i = [], 0
    while i < len(s):
        j = s.find("\u27e6", i)
        if j < 0:
            out.append(s[i:])
            break
        k = s.find("\u27e7", j)
        # tokens may nest table text, search the registered key
        while k >= 0 and s[j:k + 1] not in STRTOK and s[j:k + 1] not in TOKENS:
            k = s.find("\u27e7", k + 1)
        if k < 0:
            raise Unsupported("unknown token in string")
        if j > i:
            out.append(s[i:j])
        t = s[j:k + 1]
        if t in STRTOK:
            out.extend(STRTOK[t].parts)
        else:
            out.append((z3.Const("str-of:" + t, STR), ()))
        i = k + 1
    return SStr(out)


# --------------------------------------------------------------------------- arrays
KORDER = {"numpy": 0, "masked": 1, "dask": 2, "xarray": 3}
DASK_ONLY = {"compute", "chunks", "map_blocks", "dask", "rechunk", "persist", "blocks", "numblocks", "chunksize",
             "visualize", "store", "map_overlap", "to_delayed", "compute_chunk_sizes", "npartitions"}
XR_ONLY = {"values", "attrs", "dims", "coords", "name", "sel", "isel"}


def dim_eq(a, b):
    """Same extent, syntactically."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return z3.eq(a, b)


def dimz(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def dim_norm(d):
    if isinstance(d, SNum):
        d = d.r
    if isinstance(d, (int, rnp.integer)):
        return int(d)
    d = z3.simplify(d)
    return d.as_long() if z3.is_int_value(d) else d


def dim_py(d):
    return d if isinstance(d, int) else SNum(d, core.FALSE, None, "int")


def hookmask(m, dims):
    """Mask function read through a boolean array, so that facts about the mask reach every use of it."""
    if m is None or getattr(m, "arr", None) is not None:
        return m
    M = SArr(dims, lambda *i: El(b=m(*i)), B1)
    M.readonly = True
    f = M._elem_frozen()

    def g(*i):
        return f(*i).boolean()
    g.arr = M
    return g


class SArr:
    """Symbolic array."""
    readonly = False

    def __init__(self, shape, elem, dtype, kind="numpy", mask=None, base=None):
        self.dims = tuple(dim_norm(d) for d in shape)
        self._elem = elem
        self.dt = rnp.dtype(dtype)
        self.kind = kind
        self.maskfn = hookmask(mask, self.dims)  # idx -> z3 Bool for masked arrays
        self.base = base            # (kind, key, nd_dims, nd_elem): structured compress/flat
        self.hooks = []
        self._memo = {}
        self.version = 0
        self.owner = None           # parent of a view
        self.nviews = 0
        self.chunksz = None
        self.attrs_ = None
        self.labels_ = None

    # --------------------------------------------------------------- elements
    def elem(self, *idx):
        idx = tuple(z3.IntVal(i) if isinstance(i, int) else i for i in idx)
        key = tuple(i.get_id() for i in idx)
        m = self._memo.get(key)
        if m is None:
            e = self._elem(*idx)
            self._memo[key] = (idx, e)
            for h in list(self.hooks):
                h(idx, e)
            return e
        return m[1]

    def add_hook(self, h):
        self.hooks.append(h)
        for idx, e in list(self._memo.values()):
            h(idx, e)

    @property
    def ndim(self): return len(self.dims)

    @property
    def shape(self): return tuple(dim_py(d) for d in self.dims)

    @property
    def dtype(self): return SDtype(self.dt)

    @property
    def size(self):
        r = 1
        for d in self.dims:
            r = r * dim_py(d)
        return r

    @property
    def T(self):
        n = self.ndim
        if n < 2:
            return self
        return SArr(self.dims[::-1], lambda *i: self.elem(*i[::-1]), self.dt, self.kind)

    def inrange(self, idx):
        c = []
        for i, d in zip(idx, self.dims):
            c += [i >= 0, i < dimz(d)]
        return z3.And(*c) if c else core.TRUE

    def like(self, elem, dtype=None, kind=None, mask="same", base=None):
        return SArr(self.dims, elem, dtype if dtype is not None else self.dt, kind or self.kind,
                    self.maskfn if mask == "same" else mask, base)

    # -------------------------------------------------------------- operators
    def __add__(self, o): return _ab("add", self, o)
    def __radd__(self, o): return _ab("add", o, self)
    def __sub__(self, o): return _ab("sub", self, o)
    def __rsub__(self, o): return _ab("sub", o, self)
    def __mul__(self, o): return _ab("mul", self, o)
    def __rmul__(self, o): return _ab("mul", o, self)
    def __truediv__(self, o): return _ab("div", self, o)
    def __rtruediv__(self, o): return _ab("div", o, self)
    def __pow__(self, o): return _ab("pow", self, o)
    def __rpow__(self, o): return _ab("pow", o, self)
    def __lt__(self, o): return _ab("lt", self, o)
    def __le__(self, o): return _ab("le", self, o)
    def __gt__(self, o): return _ab("gt", self, o)
    def __ge__(self, o): return _ab("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SStr)):
            return False
        return _ab("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, SStr)):
            return True
        return _ab("ne", self, o)

    __hash__ = object.__hash__

    def __neg__(self): return ew(lambda x: El(-x.num().r, x.nan), self, dtype=self.dt)
    def __pos__(self): return self
    def __abs__(self): return ew(lambda x: El(z3.If(x.num().r >= 0, x.num().r, -x.num().r), x.nan), self, dtype=self.dt)
    def __invert__(self):
        if self.dt.kind != "b":
            raise Unsupported("~ on non-boolean")
        return ew(lambda x: El(b=z3.Not(x.b)), self, dtype=B1)
    def __and__(self, o): return logical(z3.And, self, o)
    __rand__ = __and__
    def __or__(self, o): return logical(z3.Or, self, o)
    __ror__ = __or__
    def __xor__(self, o): return logical(z3.Xor, self, o)

    def _inplace(self, res):
        if not isinstance(res, SArr) or len(res.dims) != len(self.dims):
            raise Unsupported("in-place operation changing shape")
        if self.kind in ("dask", "xarray"):
            return res           # dask: rebinding, not mutation
        if res.dt != self.dt and not rnp.can_cast(res.dt, self.dt, "same_kind"):
            raise modelled(TypeError("Cannot cast ufunc output"))
        self.overwrite(res)
        return self

    def overwrite(self, res):
        """Replace the contents (the object keeps its identity: a mutation)."""
        if self.owner is not None or self.nviews:
            self._view_write()
        fn, dt = res._elem_frozen(), self.dt
        self._elem = (lambda *i: cast_el(fn(*i), dt)) if res.dt != dt else fn
        self._memo, self.hooks = {}, []
        self.base = None if res.base is None else res.base
        self.version += 1

    def _view_write(self):
        raise Unsupported("write to an array with live views")

    def _elem_frozen(self):
        e, memo, hooks = self._elem, self._memo, self.hooks

        def f(*idx):
            idx = tuple(z3.IntVal(i) if isinstance(i, int) else i for i in idx)
            key = tuple(i.get_id() for i in idx)
            if key not in memo:
                memo[key] = (idx, e(*idx))
                for h in list(hooks):
                    h(idx, memo[key][1])
            return memo[key][1]
        return f

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ipow__(self, o): return self._inplace(self ** o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)

    def __bool__(self):
        if self.ndim == 0 or all(d == 1 for d in self.dims):
            e = self.elem(*[z3.IntVal(0)] * self.ndim)
            return ctx().decide(e.boolean())
        raise modelled(ValueError("The truth value of an array with more than one element is ambiguous"))

    def __len__(self):
        if self.ndim == 0:
            raise modelled(TypeError("len() of unsized object"))
        d = self.dims[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() through C code on symbolic array")

    def dvlen(self):
        if self.ndim == 0:
            raise modelled(TypeError("len() of unsized object"))
        return dim_py(self.dims[0])

    def __iter__(self):
        if self.ndim >= 1 and isinstance(self.dims[0], int):
            return iter([self[i] for i in range(self.dims[0])])
        raise Unsupported("iteration over a symbolic array")

    def __contains__(self, x):
        raise Unsupported("in on array")

    def __format__(self, spec): return "<array>"
    def __str__(self): return "<array>"
    def __repr__(self): return "<array %s %s>" % (self.dims, self.dt)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array passed to real numpy")
    __array_ufunc__ = None

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ------------------------------------------------------------ numpy methods
    def astype(self, dt, copy=True, **kw):
        dt = undt(dt)
        if dt == self.dt:
            return self if not copy else self.copy()
        b = None
        if self.base is not None:
            k, key, nd, nde = self.base
            b = (k, key, nd, (lambda *i: cast_el(nde(*i), dt)))
        f = self._elem_frozen()
        return self.like(lambda *i: cast_el(f(*i), dt), dt, base=b)

    def copy(self, deep=True, data=None, order=None):
        r = self.like(self._elem_frozen(), base=self.base)
        r.attrs_ = self.attrs_ if self.attrs_ is None else dict(self.attrs_)
        r.labels_ = self.labels_ if self.labels_ is None else dict(self.labels_)
        if data is not None:
            if self.kind != "xarray":
                raise Unsupported("copy(data=...)")
            r.data = data
        return r

    def clip(self, lo=None, hi=None, min=None, max=None, out=None):
        if out is not None:
            raise Unsupported("clip out")
        return clip(self, lo if lo is not None else min, hi if hi is not None else max)

    def ravel(self, *a):
        if self.ndim == 1:
            return self.view()
        if self.ndim == 0:
            return SArr((1,), lambda i: self.elem(), self.dt, self.kind)
        return flatten(self)

    def flatten(self, *a):
        return self.ravel()

    def view(self, *a):
        if a:
            raise Unsupported("ndarray.view(dtype)")
        r = self.like(lambda *i: self.elem(*i), base=self.base)
        if self.kind in ("numpy", "masked"):
            r.owner = self
            self.nviews += 1
        return r

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def min(self, *a, **k): return extremum(self, "min", *a, **k)
    def max(self, *a, **k): return extremum(self, "max", *a, **k)

    def all(self, *a):
        return allany(self, True)

    def any(self, *a):
        return allany(self, False)

    def item(self, *a):
        if a:
            raise Unsupported("item(i)")
        if self.kind == "dask":
            raise modelled(AttributeError("'Array' object has no attribute 'item'"))
        one = core.TRUE
        for d in self.dims:
            one = z3.And(one, dimz(d) == 1)
        if not ctx().decide(one):
            raise modelled(ValueError("can only convert an array of size 1 to a Python scalar"))
        e = self.elem(*[z3.IntVal(0)] * self.ndim)
        if e.b is not None:
            return mkbool(e.b)
        return SNum(e.r, e.nan, None, "int" if self.dt.kind in "iu" else "float")

    def nonzero(self):
        return nonzero(self)

    def squeeze(self):
        raise Unsupported("squeeze")

    def sum(self, *a, **k):
        from dv import shims
        return shims.f_sum(self, *a, **k)

    def cumsum(self, *a, **k):
        from dv import shims
        return shims.f_cumsum(self, *a, **k)

    def argmax(self, *a, **k):
        from dv import shims
        return shims.f_argext("max")(self, *a, **k)

    def argmin(self, *a, **k):
        from dv import shims
        return shims.f_argext("min")(self, *a, **k)

    def mean(self, *a, **k):
        raise Unsupported("mean")

    def tolist(self):
        raise Unsupported("tolist")

    @property
    def flags(self):
        raise Unsupported("flags")

    def filled(self, v=None):
        if self.kind != "masked":
            raise modelled(AttributeError("filled"))
        m, f = self.maskfn, self._elem_frozen()
        ev = el_of(v)

        def g(*i):
            a = f(*i)
            return El(z3.If(m(*i), to_real(ev.r), to_real(a.r)), z3.If(m(*i), ev.nan, a.nan))
        return SArr(self.dims, g, self.dt, "numpy")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        k = self.__dict__.get("kind")
        if name in DASK_ONLY:
            if k in ("dask", "xarray"):
                return getattr(self, "_da_" + name) if name != "chunks" else self._chunks()
            raise modelled(AttributeError("'numpy.ndarray' object has no attribute %r" % name))
        if name == "mask":
            if k == "masked":
                self.maskfn = hookmask(self.maskfn, self.dims)
                return self.maskfn.arr
            if k == "xarray":
                raise modelled(AttributeError("mask"))
            raise modelled(AttributeError("no attribute 'mask'"))
        if name == "data":
            if k == "xarray":
                return self.like(self._elem_frozen(), kind="dask" if self.chunksz else "numpy")
            if k == "masked":
                return self.like(self._elem_frozen(), kind="numpy", mask=None)
        if name in XR_ONLY:
            if k == "xarray":
                if name == "attrs" and self.attrs_ is not None:
                    return self.attrs_
                if self.labels_ is not None and name in self.labels_:
                    return self.labels_[name]
                raise Unsupported("xarray.%s" % name)
            raise modelled(AttributeError("no attribute %r" % name))
        if hasattr(rnp.ndarray, name) or name in ("map", "where"):
            raise Unsupported("array attribute %s" % name)
        raise modelled(AttributeError("array has no attribute %r" % name))

    def __setattr__(self, name, val):
        if name == "data" and self.__dict__.get("kind") == "xarray":
            self._elem = val._elem_frozen()
            self._memo, self.hooks = {}, []
            self.dt = val.dt
            self.version += 1
            self.chunksz = val.kind == "dask"
            return
        if name == "shape":
            raise Unsupported("assignment to .shape")
        object.__setattr__(self, name, val)

    # ----------------------------------------------------------------- dask part
    def _chunks(self):
        if self.kind == "xarray" and not self.chunksz:
            return None
        return Opaque("chunks")

    def _da_compute(self, **kw):
        ctx().event("compute")
        lk = getattr(self, "lazy_kind", "numpy")
        r = self.like(self._elem_frozen(), kind="numpy" if self.kind == "dask" else "xarray", base=self.base)
        lazy = self.__dict__.get("lazy")
        if lazy is not None:
            return lazy()
        if self.kind == "xarray":
            r.chunksz = False
        return r

    def _da_map_blocks(self, f, *args, **kw):
        from dv.shims import map_blocks
        return map_blocks(f, self, *args, **kw)

    def _da_rechunk(self, *a, **k):
        return self

    def _da_persist(self, **k):
        ctx().event("compute")
        return self


class Opaque:
    """A value the contracts do not look into."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<%s>" % self.what

    def __eq__(self, o):
        raise Unsupported("comparison of opaque %s" % self.what)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth of opaque %s" % self.what)


def _ab(op, a, b):
    for x in (a, b):
        if not isinstance(x, (SArr, SNum, SBool, int, float, rnp.generic, rnp.ndarray)):
            if isinstance(x, (list, tuple)):
                raise Unsupported("array op with list")
            if x is None:
                raise modelled(TypeError("unsupported operand None"))
            return NotImplemented
    return binop(op, a, b)


def from_concrete(a):
    a = rnp.asarray(a)
    if a.size > 5000 or a.dtype.kind not in "fiub":
        raise Unsupported("concrete array of size %d mixed with symbolic" % a.size)
    if a.ndim == 0:
        return SArr((), lambda: el_of(a.item()), a.dtype)

    def f(*idx):
        c = []
        for i in idx:
            s = z3.simplify(i)
            if not z3.is_int_value(s):
                raise Unsupported("symbolic index into concrete array")
            c.append(s.as_long())
        return el_of(a[tuple(c)].item())
    return SArr(a.shape, f, a.dtype)


def lift(x):
    """Anything numeric -> SArr (0-d for scalars)."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, rnp.ndarray):
        return from_concrete(x)
    if isinstance(x, (SNum, SBool, bool, int, float, rnp.generic)):
        e = el_of(x)
        dt = x.dt if isinstance(x, SNum) and x.dt is not None else (
            B1 if e.b is not None else (I8 if z3.is_int(e.r) else F8))
        return SArr((), lambda: e, dt)
    if isinstance(x, (list, tuple)):
        parts = [lift(v) for v in x]
        if not parts:
            return from_concrete(rnp.array([]))
        if all(p.ndim == 0 for p in parts):
            dt = rnp.result_type(*[p.dt for p in parts])

            def f(i):
                s = z3.simplify(i)
                if z3.is_int_value(s):
                    return fit(parts[s.as_long()].elem(), dt)
                if len(parts) == 1:
                    return fit(parts[0].elem(), dt)
                e = fit(parts[-1].elem(), dt)
                for n in range(len(parts) - 2, -1, -1):
                    p = fit(parts[n].elem(), dt)
                    e = el_if(i == n, p, e)
                return e
            return SArr((len(parts),), f, dt)
        raise Unsupported("nested list to array")
    raise Unsupported("cannot make an array from %r" % type(x))


def el_if(c, a, b):
    if a.b is not None and b.b is not None:
        return El(b=z3.If(c, a.b, b.b))
    a, b = a.num(), b.num()
    x, y = a.r, b.r
    if z3.is_int(x) != z3.is_int(y):
        x, y = to_real(x), to_real(y)
    nan = core.FALSE if z3.is_false(a.nan) and z3.is_false(b.nan) else z3.If(c, a.nan, b.nan)
    return El(z3.If(c, x, y), nan)


def bcast_dims(arrs):
    n = max(a.ndim for a in arrs)
    out = []
    for pos in range(n):
        cur = 1
        for a in arrs:
            k = pos - (n - a.ndim)
            if k < 0:
                continue
            d = a.dims[k]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
                continue
            if dim_eq(cur, d):
                continue
            if ctx().decide(dimz(cur) == dimz(d)):
                continue
            if not isinstance(d, int) and ctx().decide(dimz(d) == 1):
                continue
            if not isinstance(cur, int) and ctx().decide(dimz(cur) == 1):
                cur = d
                continue
            raise modelled(ValueError("operands could not be broadcast together"))
        out.append(cur)
    return tuple(out)


def bidx(a, idx):
    """Index of array a for broadcast index idx."""
    off = len(idx) - a.ndim
    out = []
    for k, d in enumerate(a.dims):
        i = idx[off + k]
        if isinstance(d, int):
            out.append(z3.IntVal(0) if d == 1 else i)
        else:
            st = dim1_state(d)
            if st is True:
                out.append(z3.IntVal(0))
            else:
                out.append(i)
    return out


def dim1_state(d):
    """Has this path decided that the extent d is 1?"""
    for p in ctx().pc:
        if z3.is_eq(p) and ((z3.eq(p.arg(0), d) and z3.is_int_value(p.arg(1)) and p.arg(1).as_long() == 1) or
                            (z3.eq(p.arg(1), d) and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() == 1)):
            return True
    return None


def ew(fn, *args, dtype, kind=None):
    """Elementwise operation with broadcasting."""
    arrs = [lift(a) for a in args]
    real = [a for a in arrs if a.ndim > 0] or arrs
    dims = bcast_dims(arrs)
    k = kind or max((a.kind for a in arrs), key=lambda s: KORDER[s])
    dt = rnp.dtype(dtype)
    froz = [a._elem_frozen() for a in arrs]

    def f(*idx):
        return fn(*[fr(*bidx(a, idx)) for fr, a in zip(froz, arrs)])
    base = None
    strs = [a for a in arrs if a.ndim > 0]
    if strs and strs[0].base is not None and all(
            a.base is not None and a.base[0] == strs[0].base[0] and a.base[1] == strs[0].base[1] for a in strs):
        b0 = strs[0].base
        nds = [(a.base[3] if a.ndim > 0 else (lambda *i, a=a: a.elem())) for a in arrs]
        base = (b0[0], b0[1], b0[2], lambda *i: fn(*[nd(*i) for nd in nds]))
    mask = None
    if k == "masked":
        ms = [(a, a.maskfn) for a in arrs if a.maskfn is not None]
        mask = (lambda *idx: z3.Or(*[m(*bidx(a, idx)) for a, m in ms])) if ms else None
    if not dims and all(a.ndim == 0 for a in arrs) and not any(isinstance(x, SArr) and x.kind != "numpy" for x in args):
        e = f()
        if e.b is not None:
            return mkbool(e.b)
        return SNum(e.r, e.nan, dt)
    r = SArr(dims, f, dt, k, mask, base)
    for a in arrs:
        if a.kind == "xarray":
            r.chunksz, r.attrs_, r.labels_ = a.chunksz, a.attrs_, a.labels_
    return r


def logical(op, *args, out=None):
    if not all(isinstance(a, (SArr, SBool, bool, rnp.bool_)) for a in args):
        args = [a if isinstance(a, (SArr, SBool, bool)) else binop("ne", a, 0) for a in args]
    if not any(isinstance(a, SArr) for a in args):
        return mkbool(op(*[core.as_bool(a) for a in args]))
    return ew(lambda *e: El(b=op(*[x.boolean() for x in e])), *args, dtype=B1)


def clip(a, lo, hi):
    def f(x, *b):
        x = x.num()
        r = x.r
        bs = list(b)
        if lo is not None:
            l = bs.pop(0).num().r
            if z3.is_int(l) != z3.is_int(r):
                l, r = to_real(l), to_real(r)
            r = z3.If(r < l, l, r)
        if hi is not None:
            h = bs.pop(0).num().r
            if z3.is_int(h) != z3.is_int(r):
                h, r = to_real(h), to_real(r)
            r = z3.If(r > h, h, r)
        return El(r, x.nan)
    bounds = [b for b in (lo, hi) if b is not None]
    dt = result_dt(a, *bounds)
    if not isinstance(a, SArr) and not any(isinstance(b, SArr) for b in bounds):
        if not any(isinstance(x, (SNum, SArr)) for x in [a] + bounds):
            return rnp.clip(a, lo, hi)
        e = f(el_of(a), *[el_of(b) for b in bounds])
        return SNum(to_real(e.r) if dt.kind == "f" else e.r, e.nan, dt)
    return ew(lambda *es: fit(f(*es), dt), a, *bounds, dtype=dt)


def reshape(a, shape):
    shape = [dim_norm(s) for s in shape]
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if a.ndim == 0:
        return SArr([1 if isinstance(s, int) and s == -1 else s for s in shape], lambda *i: a.elem(), a.dt, a.kind)
    if a.base is not None and a.base[0] == "flat":
        nd = a.base[2]
        if len(nd) == len(shape) and all(dim_eq(x, y) for x, y in zip(nd, shape)):
            return SArr(nd, a.base[3], a.dt, a.kind)
    if len(shape) == a.ndim and not neg and all(dim_eq(x, y) for x, y in zip(a.dims, shape)):
        return a.view()
    if a.ndim == 1:
        if len(shape) == 2 and neg == [0] and shape[1] == 1:
            return SArr((a.dims[0], 1), lambda i, j: a.elem(i), a.dt, a.kind)
        if len(shape) == 2 and neg == [1] and shape[0] == 1:
            return SArr((1, a.dims[0]), lambda i, j: a.elem(j), a.dt, a.kind, None,
                        a.base if a.base is not None and a.base[0] == "flat" else None)
        if len(shape) == 2 and shape[1] == 1 and not neg and dim_eq(shape[0], a.dims[0]):
            return SArr((a.dims[0], 1), lambda i, j: a.elem(i), a.dt, a.kind)
        if len(shape) == 1 and (neg or dim_eq(shape[0], a.dims[0])):
            return a.view()
    if a.ndim == 2 and len(shape) == 1 and isinstance(a.dims[0], int) and a.dims[0] == 1 and (neg or dim_eq(shape[0], a.dims[1])):
        return SArr((a.dims[1],), lambda i: a.elem(z3.IntVal(0), i), a.dt, a.kind)
    if a.ndim == 2 and neg == [0] and len(shape) == 2 and shape[1] == 1:
        fl = flatten(a)
        return SArr((fl.dims[0], 1), lambda i, j: fl.elem(i), a.dt, a.kind)
    if a.ndim >= 2 and len(shape) == 1 and neg:
        return flatten(a)
    raise Unsupported("reshape %s -> %s" % (a.dims, shape))


def flatten(a):
    """C-order flattening, kept structured."""
    key = ("flat",) + tuple(d if isinstance(d, int) else ("z", d.get_id()) for d in a.dims)
    n = z3.IntVal(1)
    for d in a.dims:
        n = n * dimz(d)
    nd, dims = a._elem_frozen(), a.dims

    def f(i):
        # unravel: i = ((i0*d1)+i1)*d2+i2
        c = ctx()
        idx, rest = [], i
        fs = [z3.Function("UNR%d_%s" % (k, "_".join(str(d) for d in dims)), z3.IntSort(), z3.IntSort())
              for k in range(len(dims))]
        idx = [g(i) for g in fs]
        tot = idx[0]
        for k in range(1, len(dims)):
            tot = tot * dimz(dims[k]) + idx[k]
        tot_n = n
        c.fact(z3.Implies(z3.And(i >= 0, i < tot_n),
                          z3.And(*([tot == i] + [z3.And(x >= 0, x < dimz(d)) for x, d in zip(idx, dims)]))))
        return nd(*idx)
    return SArr((dim_norm(z3.simplify(n)),), f, a.dt, a.kind, None, ("flat", key, a.dims, nd))


def extremum(a, which, axis=None, **kw):
    if axis is not None:
        raise Unsupported("min/max over an axis")
    cache = a.__dict__.setdefault("_ext", {})
    k = (which, a.version)
    if k in cache:
        return cache[k]
    c = ctx()
    c.check_deadline()
    # the extremum is attained at some index and bounds every element; NaN if any element is NaN
    empty = [dimz(d) <= 0 for d in a.dims if not (isinstance(d, int) and d > 0)]
    if empty and c.decide(z3.Or(*empty)):
        raise modelled(ValueError("zero-size array to reduction operation"))
    w = tuple(c.int("arg" + which) for _ in a.dims)
    c.fact(a.inrange(w))
    e = a.elem(*w).num()
    if z3.is_false(z3.simplify(e.nan)):
        hasnan = core.FALSE
    else:
        hasnan = c.bool("hasnan")
        nw = tuple(c.int("nanwit") for _ in a.dims)
        c.fact(z3.Implies(hasnan, z3.And(a.inrange(nw), a.elem(*nw).num().nan)))

    def hook(idx, x):
        x = x.num()
        bound = (to_real(e.r) <= to_real(x.r)) if which == "min" else (to_real(e.r) >= to_real(x.r))
        c.fact(z3.Implies(a.inrange(idx), z3.Implies(z3.Not(hasnan), z3.And(z3.Not(x.nan), bound))))
    a.add_hook(hook)
    if a.ndim == 1:  # instances at the ends
        a.elem(z3.IntVal(0))
        a.elem(z3.simplify(dimz(a.dims[0]) - 1))
    r = SNum(e.r, hasnan, a.dt)
    if a.kind == "dask":
        r0 = r
        r = SArr((), lambda: El(r0.r, r0.nan), a.dt, "dask")
    cache[k] = r
    return r


class NanExt:
    """nanmin/nanmax: usually only logged; the value is worked out when something is decided with it."""

    def __init__(self, a, which):
        self.a, self.which, self.version, self.r = a, which, a.version, None

    def force(self):
        if self.r is None:
            a, c = self.a, ctx()
            if a.version != self.version or a.maskfn is not None or a.kind == "dask":
                raise Unsupported("nan" + self.which)
            c.check_deadline()
            empty = [dimz(d) <= 0 for d in a.dims if not (isinstance(d, int) and d > 0)]
            if empty and c.decide(z3.Or(*empty)):
                raise modelled(ValueError("zero-size array to reduction operation"))
            w = tuple(c.int("nanarg" + self.which) for _ in a.dims)
            c.fact(a.inrange(w))
            e = a.elem(*w).num()
            # attained at a number, if there is one, and bounds every number; NaN if all are missing

            def hook(idx, x):
                x = x.num()
                bound = (to_real(e.r) <= to_real(x.r)) if self.which == "min" else (to_real(e.r) >= to_real(x.r))
                c.fact(z3.Implies(z3.And(a.inrange(idx), z3.Not(x.nan)), z3.And(z3.Not(e.nan), bound)))
            a.add_hook(hook)
            self.r = SNum(e.r, e.nan, a.dt)
        return self.r

    def __repr__(self):
        return "<nan%s>" % self.which
    dv_str = __format__ = lambda self, *a: repr(self)

    def __lt__(self, o): return self.force() < o
    def __le__(self, o): return self.force() <= o
    def __gt__(self, o): return self.force() > o
    def __ge__(self, o): return self.force() >= o
    def __eq__(self, o): return self.force() == o
    def __ne__(self, o): return self.force() != o
    def __add__(self, o): return self.force() + o
    def __radd__(self, o): return o + self.force()
    def __sub__(self, o): return self.force() - o
    def __rsub__(self, o): return o - self.force()
    def __mul__(self, o): return self.force() * o
    def __rmul__(self, o): return o * self.force()
    def __truediv__(self, o): return self.force() / o
    def __rtruediv__(self, o): return o / self.force()

    def __hash__(self):
        return id(self)


def allany(a, isall):
    c = ctx()
    w = tuple(c.int("wit") for _ in a.dims)
    e = a.elem(*w).boolean()
    b = c.bool("all" if isall else "any")
    # b false (for all): witness violates; b true: every (mentioned) element satisfies
    bad = z3.Not(e) if isall else e
    c.fact(z3.Implies(z3.Not(b) if isall else b, z3.And(a.inrange(w), bad)))

    def hook(idx, x):
        v = x.boolean()
        if isall:
            c.fact(z3.Implies(z3.And(b, a.inrange(idx)), v))
        else:
            c.fact(z3.Implies(z3.And(z3.Not(b), a.inrange(idx)), z3.Not(v)))
    a.add_hook(hook)
    return SBool(b)


# ---------------------------------------------------------------- compress / nonzero
def comp_key(mask):
    """Structural key of a boolean array: its element at canonical index constants."""
    ids = [z3.Int("cidx%d" % k) for k in range(mask.ndim)]
    b = z3.simplify(mask.elem(*ids).boolean())
    return b


def comp_struct(mask):
    """(key, count, sigma, rank) of the 1-D selection by mask, with its defining facts as hooks."""
    c = ctx()
    b = comp_key(mask)
    ids = [z3.Int("cidx%d" % k) for k in range(mask.ndim)]
    guard = [z3.And(i >= 0, i < dimz(d)) for i, d in zip(ids, mask.dims)]
    key = (mask.ndim, c.alike("mask%d" % mask.ndim, [b], guard, [dimz(d) for d in mask.dims]))
    tab = c.__dict__.setdefault("comp_tab", {})
    ent = tab.get((id(c), c.npaths, key))
    if ent is None:
        n = len(tab)
        cnt = z3.Int("cnt!%d" % n)
        sig = z3.Function("sel!%d" % n, z3.IntSort(), z3.IntSort())
        rank = z3.Function("rank!%d" % n, z3.IntSort(), z3.IntSort())
        ent = CompStruct(key, mask, cnt, sig, rank)
        tab[(id(c), c.npaths, key)] = ent
        c.fact(z3.And(cnt >= 0, cnt <= dimz(mask.dims[0])) if mask.ndim == 1 else cnt >= 0)
        if mask.ndim == 1:  # everything is selected or some index is not; nothing, or some index is
            nz = dimz(mask.dims[0])
            ent.full = nz
            w = c.int("unsel")
            f = mask._elem_frozen()
            c.fact(z3.Or(cnt == nz, z3.And(w >= 0, w < nz, z3.Not(f(w).boolean()))))
            if c.feasible(z3.And(w >= 0, w < nz, z3.Not(f(w).boolean()))) == "unsat":
                ent.whole = True
    return ent


class CompStruct:
    def __init__(self, key, mask, cnt, sig, rank):
        self.key, self.mask, self.cnt, self.sig, self.rank = key, mask, cnt, sig, rank
        self.seen = {}
        self.full, self.whole = None, False

    def at(self, a):
        """sigma(a) with its facts."""
        c = ctx()
        s = self.sig(a)
        if a.get_id() not in self.seen:
            n = dimz(self.mask.dims[0])
            inb = z3.And(a >= 0, a < self.cnt)
            self.seen[a.get_id()] = a
            c.fact(z3.Implies(inb, z3.And(s >= 0, s < n, self.rank(s) == a)))
            c.fact(z3.Implies(inb, self.mask.elem(s).boolean()))
            if self.full is not None:  # an increasing map of [0, n) into itself is the identity
                c.fact(z3.Implies(z3.And(inb, self.cnt == self.full), s == a))
            for o in list(self.seen.values()):
                if o is not a:
                    ob = z3.And(o >= 0, o < self.cnt)
                    c.fact(z3.Implies(z3.And(inb, ob), (a < o) == (s < self.sig(o))))
        return s

    def covers(self, i):
        """Every selected index i is sigma(rank(i)): fact, returns rank(i)."""
        c = ctx()
        r = self.rank(i)
        n = dimz(self.mask.dims[0])
        c.fact(z3.Implies(z3.And(i >= 0, i < n, self.mask.elem(i).boolean()),
                          z3.And(r >= 0, r < self.cnt, self.sig(r) == i)))
        self.at(r)
        return r


def compress(a, mask):
    if mask.ndim != 1 or a.ndim != 1:
        raise Unsupported("boolean mask selection in more than one dimension")
    if not dim_eq(a.dims[0], mask.dims[0]):
        if not ctx().decide(dimz(a.dims[0]) == dimz(mask.dims[0])):
            raise modelled(IndexError("boolean index did not match indexed array"))
    if z3.is_true(comp_key(mask)):
        return a.copy()  # everything selected
    ent = comp_struct(mask)
    if ent.whole:
        g = a._elem_frozen()

        def wh(i):
            b = mask.elem(i).boolean()
            ctx().fact(z3.Implies(z3.And(i >= 0, i < ent.full), b))
            return g(i)
        return a.like(wh, base=a.base)
    nd = a._elem_frozen()
    return SArr((ent.cnt,), lambda i: nd(ent.at(i)), a.dt, a.kind, None, ("comp", ent.key, (a.dims[0],), nd))


class NdSelect:
    """Coordinates (along all axes) of the true elements of an n-d mask: np.where(mask)."""

    def __init__(self, mask):
        self.mask = mask


class NdIndex:
    def __init__(self, sel, axis):
        self.sel, self.axis = sel, axis
        self.mask = sel.mask
        self.dt = I8

    @property
    def shape(self):
        return (SNum(z3.Int("cntnd!%d" % id(self.sel)), core.FALSE, None, "int"),)

    @property
    def size(self):
        return self.shape[0]

    def __len__(self):
        raise Unsupported("len of nd selection")

    def __getitem__(self, k):
        raise Unsupported("element of nd selection")


def nonzero(mask):
    mask = lift(mask)
    if mask.dt.kind != "b":
        mask = binop("ne", mask, 0)
    if mask.ndim == 1:
        ent = comp_struct(mask)
        return (SArr((ent.cnt,), lambda i: El(ent.at(i)), I8, mask.kind, None,
                     ("comp", ent.key, (mask.dims[0],), lambda i: El(i))),)
    sel = NdSelect(mask)
    return tuple(NdIndex(sel, k) for k in range(mask.ndim))


# ------------------------------------------------------------------------- indexing
def norm_index(i, n):
    """Python index -> z3 int in [0, n), raising IndexError when out of range."""
    iz = i.r if isinstance(i, SNum) else z3.IntVal(int(i))
    if z3.is_real(iz):
        raise modelled(IndexError("only integers are valid indices"))
    nz = dimz(n)
    if not ctx().decide(z3.And(iz >= -nz, iz < nz)):
        raise modelled(IndexError("index out of bounds"))
    if ctx().decide(iz < 0):
        return z3.simplify(iz + nz)
    return iz


def slice_dim(s, n):
    """-> (new extent, map new index -> old index)"""
    step = s.step
    if step is None:
        step = 1
    if s.start is None and s.stop is None:
        if step == 1:
            return n, (lambda i: i)
        if step == -1:
            return n, (lambda i: dimz(n) - 1 - i)
    if step == 1:
        nz = dimz(n)

        def bound(b, default):
            if b is None:
                return default
            bz = b.r if isinstance(b, SNum) else z3.IntVal(int(b))
            bz = z3.simplify(z3.If(bz < 0, z3.If(bz + nz < 0, z3.IntVal(0), bz + nz), z3.If(bz > nz, nz, bz)))
            return bz
        lo, hi = bound(s.start, z3.IntVal(0)), bound(s.stop, nz)
        ext = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        # resolve the conditionals where the path condition decides them
        ext = resolve_int(ext)
        lo = resolve_int(lo)
        return dim_norm(ext), (lambda i: z3.simplify(i + lo))
    raise Unsupported("slice with step %r" % (step,))


def resolve_int(e):
    """Resolve ite conditions in an integer term by asking the solver / forking."""
    for _ in range(8):
        cs = prover.ite_conditions(e)
        if not cs:
            return e
        v = ctx().decide(cs[-1])
        e = z3.simplify(z3.substitute(e, (cs[-1], z3.BoolVal(v))))
    return e


def getitem(a, key):
    if isinstance(key, SArr) and key.dt.kind == "b":
        return compress(a, key)
    if not isinstance(key, tuple):
        key = (key,)
    if key and all(isinstance(k, NdIndex) for k in key):
        m = key[0].mask
        if len(key) != a.ndim or any(k.sel is not key[0].sel for k in key):
            raise Unsupported("nd selection")
        return NdSelected(key[0].sel, a._elem_frozen(), a.dt, a.maskfn)
    nk = sum(1 for k in key if k is not None and k is not Ellipsis)
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - nk)
        else:
            out.append(k)
    nk2 = sum(1 for k in out if k is not None)
    if nk2 > a.ndim:
        raise modelled(IndexError("too many indices for array"))
    out += [slice(None)] * (a.ndim - nk2)
    fancy = [k for k in out if isinstance(k, (SArr, rnp.ndarray, list))]
    if fancy:
        if a.ndim == 1 and len(out) == 1:
            return gather(a, lift(fancy[0]))
        raise Unsupported("fancy indexing")
    maps, dims, ax = [], [], 0
    for k in out:
        if k is None:
            dims.append(1)
            maps.append(("new",))
            continue
        n = a.dims[ax]
        if isinstance(k, slice):
            ext, mp = slice_dim(k, n)
            dims.append(ext)
            maps.append(("slice", mp))
        else:
            if not isinstance(k, (int, rnp.integer, SNum)) or isinstance(k, bool):
                raise Unsupported("index %r" % type(k))
            maps.append(("int", norm_index(k, n)))
        ax += 1

    def idxmap(idx):
        res, p = [], 0
        for m in maps:
            if m[0] == "int":
                res.append(m[1])
            elif m[0] == "slice":
                res.append(m[1](idx[p]))
                p += 1
            else:
                p += 1
        return res
    if not dims:
        e = a.elem(*idxmap(()))
        if a.kind == "dask":
            return SArr((), lambda: e, a.dt, "dask")
        if e.b is not None:
            return mkbool(e.b)
        return SNum(e.r, e.nan, a.dt)
    mask = None
    if a.maskfn is not None:
        mf = a.maskfn
        mask = lambda *i: mf(*idxmap(i))
    r = SArr(dims, lambda *i: a.elem(*idxmap(i)), a.dt, a.kind, mask)
    if a.kind in ("numpy", "masked"):
        r.owner = a
        a.nviews += 1
    return r


def gather(a, ix):
    """a[ix] for an integer index array: every index must be in range (checked), negatives wrap."""
    c = ctx()
    if ix.dt.kind not in "iu":
        raise modelled(IndexError("arrays used as indices must be of integer (or boolean) type"))
    n = dimz(a.dims[0])
    if ix.base is not None and ix.base[0] == "comp" and ix.ndim == 1:
        w = z3.Int("cidx0")
        if z3.eq(z3.simplify(ix.base[3](w).r), w) and dim_eq(ix.base[2][0], a.dims[0]):
            nd = a._elem_frozen()
            return SArr(ix.dims, lambda i: nd(ix.elem(i).r), a.dt, a.kind, None,
                        ("comp", ix.base[1], ix.base[2], nd))
    w = tuple(c.int("gi") for _ in ix.dims)
    bad = z3.And(ix.inrange(w), z3.Or(ix.elem(*w).r >= n, ix.elem(*w).r < -n))
    if c.decide(bad):
        raise modelled(IndexError("index out of bounds"))

    def hook(idx, e):
        c.fact(z3.Implies(ix.inrange(idx), z3.And(e.r < n, e.r >= -n)))
    ix.add_hook(hook)
    f = a._elem_frozen()

    def g(*idx):
        i = ix.elem(*idx).r
        return f(z3.If(i < 0, i + n, i))
    return SArr(ix.dims, g, a.dt, max((a.kind, ix.kind), key=lambda s: KORDER[s]))


class NdSelected:
    """Values of an array at the true positions of an n-d mask (a[np.where(mask)])."""

    def __init__(self, sel, nd, dt, maskfn=None):
        self.sel, self.nd, self.dt, self.maskfn = sel, nd, rnp.dtype(dt), maskfn

    def _op(self, op, o, rev=False):
        if isinstance(o, NdSelected):
            if o.sel is not self.sel:
                raise Unsupported("different selections")
            nd2, tok = o.nd, o.dt
        else:
            e = el_of(o)
            nd2, tok = (lambda *i: e), dt_token(o)
        dt = rnp.result_type(*([tok, self.dt] if rev else [self.dt, tok]))
        if op == "div" and dt.kind != "f":
            dt = F8
        nd1 = self.nd
        mf = self.maskfn if not isinstance(o, NdSelected) or o.maskfn is None else (
            o.maskfn if self.maskfn is None else
            (lambda *i, p=self.maskfn, q=o.maskfn: z3.Or(p(*i), q(*i))))
        if rev:
            return NdSelected(self.sel, lambda *i: fit(_arith(op, nd2(*i), nd1(*i)), dt), dt, mf)
        return NdSelected(self.sel, lambda *i: fit(_arith(op, nd1(*i), nd2(*i)), dt), dt, mf)

    def __add__(self, o): return self._op("add", o)
    def __radd__(self, o): return self._op("add", o, True)
    def __sub__(self, o): return self._op("sub", o)
    def __rsub__(self, o): return self._op("sub", o, True)
    def __mul__(self, o): return self._op("mul", o)
    def __rmul__(self, o): return self._op("mul", o, True)
    def __truediv__(self, o): return self._op("div", o)
    def __rtruediv__(self, o): return self._op("div", o, True)
    def __pow__(self, o): return self._op("pow", o)
    def __rpow__(self, o): return self._op("pow", o, True)
    def __neg__(self): return self._op("mul", -1)
    __iadd__ = __add__
    __isub__ = __sub__
    __imul__ = __mul__
    __array_ufunc__ = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("selected.%s" % name)


def setitem(a, key, val):
    if a.kind == "dask":
        pass
    if not isinstance(key, tuple):
        key = (key,)
    old = a._elem_frozen()
    dt = a.dt
    mold = a.maskfn
    if all(isinstance(k, NdIndex) for k in key) and key:
        m = key[0].mask
        if len(key) != a.ndim or any(k.sel is not key[0].sel for k in key):
            raise Unsupported("nd selection store")
        if isinstance(val, NdSelected):
            if val.sel is not key[0].sel:
                raise Unsupported("store of a different selection")
            v = val.nd
            vm = val.maskfn
        else:
            e = el_of(val)
            v, vm = (lambda *i: e), None
        store(a, lambda *i: el_if(m.elem(*i).boolean(), cast_el(v(*i), dt), old(*i)))
        if mold is not None:
            if vm is None:
                a.maskfn = lambda *i: z3.And(mold(*i), z3.Not(m.elem(*i).boolean()))
            else:
                a.maskfn = lambda *i: z3.If(m.elem(*i).boolean(), vm(*i), mold(*i))
        return
    if len(key) == 1 and isinstance(key[0], SArr) and key[0].dt.kind == "b":
        m = key[0]
        if len(m.dims) != a.ndim or not all(dim_eq(x, y) for x, y in zip(m.dims, a.dims)):
            raise Unsupported("mask store shape")
        mf = m._elem_frozen()
        if isinstance(val, SArr) and val.ndim > 0:
            if val.base is not None and val.base[0] == "comp" and m.ndim == 1 and \
                    val.base[1] == comp_struct(m).key:
                v = val.base[3]
            elif m.ndim == 1 and comp_struct(m).whole and dim_eq(val.dims[0], a.dims[0]):
                v = val._elem_frozen()
            else:
                raise Unsupported("mask store of array")
        else:
            e = el_of(val) if not isinstance(val, SArr) else val.elem()
            v = lambda *i: e
        store(a, lambda *i: el_if(mf(*i).boolean(), cast_el(v(*i), dt), old(*i)))
        return
    if len(key) == 1 and (key[0] is Ellipsis or (isinstance(key[0], slice) and key[0] == slice(None))):
        v = lift(val)
        dims = bcast_dims([a, v])
        vf = v._elem_frozen()
        store(a, lambda *i: cast_el(vf(*bidx(v, i)), dt))
        return
    if all(isinstance(k, (int, rnp.integer, SNum)) for k in key) and len(key) == a.ndim:
        ix = [norm_index(k, n) for k, n in zip(key, a.dims)]
        e = el_of(val)
        store(a, lambda *i: el_if(z3.And(*[x == y for x, y in zip(i, ix)]), cast_el(e, dt), old(*i)))
        return
    if all(isinstance(k, (int, rnp.integer, SNum, slice)) for k in key) and len(key) <= a.ndim and mold is None:
        store_region(a, key + (slice(None),) * (a.ndim - len(key)), val, old)
        return
    raise Unsupported("array store with index %r" % (key,))


def store_region(a, key, val, old):
    """a[i, lo:hi] = val: integers and unit-step slices."""
    dt = a.dt
    regs, ext = [], []
    for k, n in zip(key, a.dims):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("array store with stepped slice")
            e, mp = slice_dim(k, n)
            regs.append((mp(z3.IntVal(0)), dimz(e)))
            ext.append(e)
        else:
            regs.append((norm_index(k, n), None))
    v = lift(val)
    if v.ndim > len(ext) or v.maskfn is not None:
        raise Unsupported("region store of such a value")
    vd = ext[len(ext) - v.ndim:]
    stretch = []
    for x, y in zip(v.dims, vd):
        if dim_eq(x, y):
            stretch.append(False)
        elif isinstance(x, int) and x == 1:
            stretch.append(True)
        elif ctx().decide(dimz(x) == dimz(y)):
            stretch.append(False)
        elif ctx().decide(dimz(x) == 1):
            stretch.append(True)
        else:
            raise modelled(ValueError("could not broadcast input array into shape"))
    vf = v._elem_frozen()

    def elem(*i):
        inside = [x == lo if e is None else z3.And(x >= lo, x < lo + e) for x, (lo, e) in zip(i, regs)]
        j = [x - lo for x, (lo, e) in zip(i, regs) if e is not None][len(ext) - v.ndim:]
        j = [z3.IntVal(0) if st else z3.simplify(x) for x, st in zip(j, stretch)]
        return el_if(z3.And(*inside), cast_el(vf(*j), dt), old(*i))
    store(a, elem)


def store(a, elem):
    if a.readonly:
        raise Unsupported("store into the mask of a masked array")
    if a.owner is not None or a.nviews:
        a._view_write()
    a._elem = elem
    a._memo, a.hooks = {}, []
    a.base = None
    a.version += 1
