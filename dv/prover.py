"""Discharging verification conditions.

Back ends, in order: (0) z3's simplifier, (1) exact polynomial / rational-function identity
(own decision procedure, equalities only), (2) z3, (3) cvc5 (command line) on the SMT-LIB export.
Transcendental functions are uninterpreted with ground axiom instances (see AXIOMS below);
two applications of the same function are related by congruence after their arguments
have been proved equal.
"""
import os
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

RR = z3.RealSort()
EXP = z3.Function("EXP", RR, RR)
LOG = z3.Function("LOG", RR, RR)
COS = z3.Function("COS", RR, RR)
ACOS = z3.Function("ACOS", RR, RR)
POW = z3.Function("POW", RR, RR, RR)
SQRT = z3.Function("SQRT", RR, RR)
PI = z3.Real("PI")
TRANS = {"EXP", "LOG", "COS", "ACOS", "POW", "SQRT"}

AXIOMS = [
    "EXP(x) > 0; EXP(x) > 1 iff x > 0; EXP(0) = 1; x < y iff EXP(x) < EXP(y)",
    "LOG(EXP(x)) = x; y > 0 => EXP(LOG(y)) = y",
    "COS in [-1,1]; COS(0) = 1; strictly decreasing on [0, PI]; COS(PI/2) = 0 as 0<=x<PI/2 => COS>0",
    "|y|<=1 => COS(ACOS(y)) = y, 0 <= ACOS(y) <= PI",
    "b > 0 => POW(b,x) > 0; POW(b,0) = 1",
    "3.14159265 < PI < 3.14159266",
]

STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0], "rational-identity": [0, 0.0], "simplifier": [0, 0.0]}


def subterms(exprs):
    seen, out, stack = set(), [], list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return out


def _has_var(e):
    for t in subterms([e]):
        if z3.is_var(t):
            return True
    return False


_FEAT = {}


def features(e):
    """(transcendental applications, mentions PI, string literals) of one formula, computed once per node."""
    r = _FEAT.get(e.get_id())
    if r is not None:
        return r[1]
    stack = [e]
    while stack:
        t = stack[-1]
        if t.get_id() in _FEAT:
            stack.pop()
            continue
        kids = [t.body()] if z3.is_quantifier(t) else t.children()
        todo = [k for k in kids if k.get_id() not in _FEAT]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        apps, pi, lits = (), False, ()
        fs = [_FEAT[k.get_id()][1] for k in kids]
        nz = [f for f in fs if f is not _NOFEAT]
        if len(nz) == 1:
            apps, pi, lits = nz[0]
        elif nz:
            d, l2 = {}, {}
            for f in nz:
                for a in f[0]:
                    d[a.get_id()] = a
                for a in f[2]:
                    l2[a.get_id()] = a
                pi = pi or f[1]
            apps, lits = tuple(d.values()), tuple(l2.values())
        if z3.is_app(t):
            dk = t.decl()
            if dk.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = dk.name()
                if nm in TRANS and not _has_var(t):
                    apps = apps + (t,)
                if not kids:
                    if nm == "PI":
                        pi = True
                    elif nm.startswith("str:"):
                        lits = lits + (t,)
        f = (apps, pi, lits) if (apps or pi or lits) else _NOFEAT
        _FEAT[t.get_id()] = (t, f)
    return _FEAT[e.get_id()][1]


_NOFEAT = ((), False, ())


def trans_apps(exprs):
    apps = {}
    for e in exprs:
        for t in features(e)[0]:
            apps.setdefault(t.decl().name(), {})[t.get_id()] = t
    return {k: list(v.values()) for k, v in apps.items()}


def axiom_instances(exprs, pairwise=True):
    """Ground instances of the axioms for all transcendental applications in exprs."""
    out = []
    apps = trans_apps(exprs)
    if any(features(e)[1] for e in exprs) or "COS" in apps or "ACOS" in apps:
        out += [PI > z3.RealVal("3.14159265"), PI < z3.RealVal("3.14159266")]
    exps = list(apps.get("EXP", []))
    for l in apps.get("LOG", []):
        y = l.arg(0)
        e = EXP(l)
        out += [z3.Implies(y > 0, e == y)]
        if not any(z3.eq(e, x) for x in exps):
            exps.append(e)
        out.append(z3.Implies(y > 1, l > 0))
        out.append(z3.Implies(y == 1, l == 0))
    for e in exps:
        x = e.arg(0)
        out += [e > 0, z3.Implies(x > 0, e > 1), z3.Implies(x < 0, e < 1), z3.Implies(x == 0, e == 1),
                e >= 1 + x]
        if any(z3.eq(x, l) for l in apps.get("LOG", [])):
            continue
        # LOG(EXP(x)) = x handled through monotonicity/injectivity of EXP
    if pairwise:
        for i in range(len(exps)):
            for j in range(i):
                a, b = exps[i], exps[j]
                out.append((a.arg(0) < b.arg(0)) == (a < b))
                out.append((a.arg(0) == b.arg(0)) == (a == b))
        logs = apps.get("LOG", [])
        for i in range(len(logs)):
            for j in range(i):
                a, b = logs[i], logs[j]
                out.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) < b.arg(0)) == (a < b)))
    coss = list(apps.get("COS", []))
    for a in apps.get("ACOS", []):
        y = a.arg(0)
        out += [z3.Implies(z3.And(y <= 1, y >= -1), z3.And(a >= 0, a <= PI, COS(a) == y)),
                z3.Implies(z3.And(y <= 1, y > 0), a < PI / 2)]
        coss.append(COS(a))
    for c in coss:
        x = c.arg(0)
        out += [c <= 1, c >= -1, z3.Implies(z3.And(x >= 0, x < PI / 2), c > 0), z3.Implies(x == 0, c == 1)]
    if pairwise:
        for i in range(len(coss)):
            for j in range(i):
                a, b = coss[i], coss[j]
                xa, xb = a.arg(0), b.arg(0)
                out.append(z3.Implies(z3.And(xa >= 0, xb >= 0, xa <= PI, xb <= PI), (xa < xb) == (a > b)))
                out.append(z3.Implies(xa == xb, a == b))
    for p in apps.get("POW", []):
        b, x = p.arg(0), p.arg(1)
        out += [z3.Implies(b > 0, p > 0), z3.Implies(x == 0, p == 1), z3.Implies(z3.And(b > 1, x > 0), p > 1)]
    for s in apps.get("SQRT", []):
        out += [z3.Implies(s.arg(0) >= 0, z3.And(s >= 0, s * s == s.arg(0)))]
    return out


# ------------------------------------------------------------------ rational identity
class TooBig(Exception):
    pass


def _pmul(a, b, lim=4000):
    out = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            d = dict(ma)
            for v, k in mb:
                d[v] = d.get(v, 0) + k
            m = tuple(sorted(d.items()))
            out[m] = out.get(m, 0) + ca * cb
            if len(out) > lim:
                raise TooBig()
    return {m: c for m, c in out.items() if c != 0}


def _padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c != 0}


ONE = {(): Fraction(1)}


class Rat:
    """Conversion of z3 real terms into quotients of polynomials over atoms."""

    def __init__(self):
        self.atoms = []        # z3 exprs
        self.keys = {}
        self.tapps = {}        # name -> [(args rats, atom index)]
        self.dens = []         # denominators met (z3 exprs) which must be nonzero
        self.cache = {}

    def atom(self, e):
        i = e.get_id()
        if i not in self.keys:
            self.keys[i] = len(self.atoms)
            self.atoms.append(e)
        return self.keys[i]

    def conv(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._conv(e)
        self.cache[i] = r
        return r

    def _conv(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = Fraction(e.as_fraction() if z3.is_rational_value(e) else e.as_long())
            return ({(): f} if f else {}, ONE)
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_ADD:
                n, d = {}, ONE
                for c in ch:
                    cn, cd = self.conv(c)
                    if cd == d:
                        n = _padd(n, cn)
                    else:
                        n, d = _padd(_pmul(n, cd), _pmul(cn, d)), _pmul(d, cd)
                return n, d
            if k == z3.Z3_OP_SUB:
                n, d = self.conv(ch[0])
                for c in ch[1:]:
                    cn, cd = self.conv(c)
                    if cd == d:
                        n = _padd(n, cn, -1)
                    else:
                        n, d = _padd(_pmul(n, cd), _pmul(cn, d), -1), _pmul(d, cd)
                return n, d
            if k == z3.Z3_OP_UMINUS:
                n, d = self.conv(ch[0])
                return {m: -c for m, c in n.items()}, d
            if k == z3.Z3_OP_MUL:
                n, d = ONE, ONE
                for c in ch:
                    cn, cd = self.conv(c)
                    n, d = _pmul(n, cn), _pmul(d, cd)
                return n, d
            if k == z3.Z3_OP_DIV:
                an, ad = self.conv(ch[0])
                bn, bd = self.conv(ch[1])
                if not bn:
                    return {((self.atom(e), 1),): Fraction(1)}, ONE
                if not (len(bn) == 1 and () in bn):
                    self.dens.append(ch[1])
                return _pmul(an, bd), _pmul(ad, bn)
            if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(ch[1])) or \
                    k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
                p = int(Fraction(str(z3.simplify(ch[1]))))
                if 0 <= p <= 12:
                    n, d = ONE, ONE
                    bn, bd = self.conv(ch[0])
                    for _ in range(p):
                        n, d = _pmul(n, bn), _pmul(d, bd)
                    return n, d
            if k == z3.Z3_OP_TO_REAL:
                return self.conv(ch[0])
            if k == z3.Z3_OP_UNINTERPRETED and ch and e.decl().name() in TRANS:
                args = [self.conv(c) for c in ch]
                lst = self.tapps.setdefault(e.decl().name(), [])
                for oargs, idx in lst:
                    if all(self._same(a, b) for a, b in zip(args, oargs)):
                        return {((idx, 1),): Fraction(1)}, ONE
                idx = len(self.atoms)
                self.atoms.append(e)
                lst.append((args, idx))
                return {((idx, 1),): Fraction(1)}, ONE
        return {((self.atom(e), 1),): Fraction(1)}, ONE

    @staticmethod
    def _same(a, b):
        return not _padd(_pmul(a[0], b[1]), _pmul(b[0], a[1]), -1)

    def equal(self, a, b):
        try:
            return self._same(self.conv(a), self.conv(b))
        except TooBig:
            return False


def rational_identity(a, b, hyps, ms=2000):
    """a == b as rational functions, with every denominator proved nonzero from hyps."""
    r = Rat()
    try:
        if not r.equal(a, b):
            return False
    except RecursionError:
        return False
    todo = {d.get_id(): d for d in r.dens}
    if not todo:
        return True
    for d in todo.values():
        if not nonzero(d, hyps, ms):
            return False
    return True


def _factors(e):
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            out = []
            for c in e.children():
                out += _factors(c)
            return out
        if k == z3.Z3_OP_DIV:
            return _factors(e.arg(0)) + _factors(e.arg(1))
        if k == z3.Z3_OP_POWER:
            return _factors(e.arg(0))
    return [e]


_NZ = {}


def nonzero(d, hyps, ms):
    for f in _factors(d):
        if z3.is_rational_value(f) or z3.is_int_value(f):
            if f.as_fraction() == 0 if z3.is_rational_value(f) else f.as_long() == 0:
                return False
            continue
        key = (f.get_id(), tuple(h.get_id() for h in hyps))
        if key not in _NZ:
            _NZ[key] = (_z3_unsat(hyps + [f == 0], ms)[0] == "unsat", f, hyps)
        if not _NZ[key][0]:
            return False
    return True


# ----------------------------------------------------------------------------- z3/cvc5
def _mk(ms):
    s = z3.Solver()
    s.set("timeout", int(ms))
    return s


def _z3_unsat(asserts, ms, model=False):
    t0 = time.time()
    ax = axiom_instances(asserts)
    ax += extra_axioms(asserts)
    s = _mk(ms)
    s.add(*asserts)
    s.add(*ax)
    r = s.check()
    STATS["z3"][0] += 1
    STATS["z3"][1] += time.time() - t0
    return str(r), (s.model() if r == z3.sat and model else None), s


_QC = {}


def reset():
    """Per-contract statistics."""
    for k in STATS:
        STATS[k] = [0, 0.0]


def extra_axioms(asserts):
    from dv import values
    return values.distinct_literals(asserts)


def quick_sat(pc, facts, ms):
    key = (tuple(p.get_id() for p in pc), tuple(f.get_id() for f in facts))
    if key in _QC:
        return _QC[key][0]
    r = _z3_unsat(pc + facts, ms)[0]
    _QC[key] = (r, pc, facts)
    return r


def cvc5_unsat(asserts, ms):
    exe = shutil.which("cvc5")
    if exe is None:
        return "unknown"
    t0 = time.time()
    s = z3.Solver()
    s.add(*asserts)
    s.add(*axiom_instances(asserts))
    s.add(*extra_axioms(asserts))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run([exe, "--tlimit=%d" % ms, "--nl-ext-tplanes", f.name], capture_output=True, text=True,
                           timeout=ms / 1000.0 + 10)
        out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except subprocess.TimeoutExpired:
        out = "unknown"
    finally:
        os.unlink(f.name)
    STATS["cvc5"][0] += 1
    STATS["cvc5"][1] += time.time() - t0
    return out


# ------------------------------------------------------------------------ goal splitting
def ite_conditions(e):
    out, seen = [], set()
    for t in subterms([e]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
            c = t.arg(0)
            if c.get_id() not in seen and not _has_var(c):
                seen.add(c.get_id())
                out.append(c)
    return out


def _leafs(hyps, goal, depth, budget):
    """Split ite conditions and top-level conjunctions/iffs of the goal.  Yields (hyps, goal)."""
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return
    if z3.is_and(goal):
        for c in goal.children():
            yield from _leafs(hyps, c, depth, budget)
        return
    if z3.is_implies(goal):
        yield from _leafs(hyps + [goal.arg(0)], goal.arg(1), depth, budget)
        return
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        for c in goal.arg(0).children():
            yield from _leafs(hyps, z3.Not(c), depth, budget)
        return
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and depth > 0:
        c, x, y = goal.children()
        for h, g in ((c, x), (z3.Not(c), y)):
            budget[0] -= 1
            if quick_sat(hyps + [h], [], 300) != "unsat":
                yield from _leafs(hyps + [h], g, depth - 1, budget)
        return
    conds = ite_conditions(goal) if depth > 0 else []
    # innermost first: a condition without ites inside
    conds.sort(key=lambda c: len(ite_conditions(c)))
    if conds and budget[0] > 0:
        c = conds[0]
        for val in (True, False):
            h = c if val else z3.Not(c)
            budget[0] -= 1
            if quick_sat(hyps + [h], [], 300) == "unsat":
                continue
            g = z3.substitute(goal, (c, z3.BoolVal(val)))
            yield from _leafs(hyps + [h], g, depth - 1, budget)
        return
    yield hyps, goal


def _trans_congruence(hyps, goal, ms):
    """Lemmas f(a) = f(b) for transcendental applications whose arguments are proved equal."""
    lem = []
    apps = trans_apps([goal])
    if not apps:
        return lem
    for name, lst in apps.items():
        for i in range(len(lst)):
            for j in range(i):
                a, b = lst[i], lst[j]
                if all(rational_identity(x, y, hyps) for x, y in zip(a.children(), b.children())):
                    lem.append(a == b)
    return lem


def _units(hyps):
    """The hypotheses as a list of conjuncts."""
    out, stack = [], list(hyps)[::-1]
    while stack:
        h = stack.pop()
        if z3.is_and(h):
            stack.extend(h.children())
        elif z3.is_not(h) and z3.is_or(h.arg(0)):
            stack.extend(z3.Not(c) for c in h.arg(0).children())
        elif z3.is_not(h) and z3.is_not(h.arg(0)):
            stack.append(h.arg(0).arg(0))
        else:
            out.append(h)
    return out


def _is_const(e):
    return z3.is_app(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def merge_names(hyps, goal):
    """goal with one name for the named applications which are equal under the hypotheses of this leaf."""
    units = _units(hyps)
    sub, defs = [], {}
    for u in units:
        if z3.is_eq(u) and _is_const(u.arg(0)):
            if _is_const(u.arg(1)):
                sub.append((u.arg(0), u.arg(1)))
            elif u.arg(0).decl().name().startswith("app!"):
                defs[u.arg(0).decl().name()] = u
    if sub:
        goal = z3.substitute(goal, *sub)
    names = [t for t in subterms([goal]) if _is_const(t) and t.decl().name() in defs]
    names.sort(key=lambda t: t.decl().name())
    gone = set()
    for i, a in enumerate(names):
        for b in names[:i]:
            if b.get_id() in gone or a.sort() != b.sort():
                continue
            x, y = defs[a.decl().name()].arg(1), defs[b.decl().name()].arg(1)
            if not (x.num_args() and x.decl().eq(y.decl())):
                continue
            ne = z3.Or(*[p != q for p, q in zip(x.children(), y.children())])
            sy = set(symbols(ne))
            rel = [d for d in defs.values() if symbols(d.arg(1)) <= sy]
            sy |= {d.arg(0).decl().name() for d in rel}
            rel += [h for h in units if symbols(h) <= sy]
            if _z3_unsat(rel + [ne], 500)[0] == "unsat":
                goal = z3.substitute(goal, (a, b))
                sub.append((a, b))
                gone.add(a.get_id())
                break
    own = [z3.simplify(z3.substitute(u, *sub)) for u in units
           if u.get_id() not in {d.get_id() for d in defs.values()}
           and any(n.startswith("app!") for n in symbols(u))] if sub else []
    return z3.simplify(goal), own


def prove_leaf(hyps, goal, ms, use_cvc5=True):
    """-> (status, backend, model) with status proved | refuted | unknown."""
    if z3.is_true(goal):
        return "proved", "simplifier", None
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        t0 = time.time()
        try:
            ok = rational_identity(goal.arg(0), goal.arg(1), hyps)
        except TooBig:
            ok = False
        STATS["rational-identity"][1] += time.time() - t0
        if not ok and any(n.startswith("app!") for n in symbols(goal)):
            g, own = merge_names(hyps, goal)
            if z3.is_true(g):
                ok = True
            elif z3.is_eq(g) and z3.is_arith(g.arg(0)) and not g.eq(goal):
                try:
                    # the conditions of the split suffice for most denominators
                    ok = rational_identity(g.arg(0), g.arg(1), own) or rational_identity(g.arg(0), g.arg(1), hyps)
                except TooBig:
                    pass
        if ok:
            STATS["rational-identity"][0] += 1
            return "proved", "rational-identity+z3", None
    lem = []
    try:
        lem = _trans_congruence(hyps, goal, ms)
    except TooBig:
        pass
    r, m, s = _z3_unsat(hyps + lem + [z3.Not(goal)], ms, model=True)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat":
        return "refuted", "z3", m
    if use_cvc5:
        r2 = cvc5_unsat(hyps + lem + [z3.Not(goal)], ms)
        if r2 == "unsat":
            return "proved", "cvc5", None
    return "unknown", "z3+cvc5", None


_SYMS = {}


def symbols(e):
    """Names of the uninterpreted constants and functions of one formula."""
    r = _SYMS.get(e.get_id())
    if r is None:
        names = frozenset(t.decl().name() for t in subterms([e])
                          if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        r = _SYMS[e.get_id()] = (names, e)
    return r[0]


def name_applications(hyps, goal, limit=40):
    """Function applications of the goal by names: c = f(a), one name for applications whose arguments are proved
    equal (from the hypotheses over the same symbols).  -> (defining equations, goal over the names)"""
    apps = [t for t in subterms([goal]) if z3.is_app(t) and t.num_args() and not _has_var(t)
            and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    if not apps or len(apps) > limit:
        return [], goal
    apps.sort(key=lambda t: len(subterms([t])))
    reps, defs, sub = [], [], []
    for t in apps:
        u = z3.simplify(z3.substitute(t, *sub)) if sub else t
        name = None
        for r, c in reps:
            if r.decl().eq(u.decl()) and [x.sort() for x in r.children()] == [x.sort() for x in u.children()]:
                ne = z3.simplify(z3.Or(*[x != y for x, y in zip(r.children(), u.children())]))
                if not z3.is_false(ne):
                    sy = symbols(ne)
                    rel = [h for h in hyps + defs if symbols(h) <= sy]
                    if _z3_unsat(rel + [ne], 500)[0] != "unsat":
                        continue
                name = c
                break
        if name is None:
            name = z3.FreshConst(t.sort(), "app")
            reps.append((u, name))
        defs.append(name == t)
        sub.append((t, name))
    # outermost applications first
    return defs, z3.simplify(z3.substitute(goal, *sub[::-1]))


def prove(hyps, goal, ms=10000, use_cvc5=True):
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        STATS["simplifier"][0] += 1
        return "proved", "simplifier", None
    r, m, _ = _z3_unsat(list(hyps) + [z3.Not(goal)], min(ms, 1500), model=True)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat":
        return "refuted", "z3", m
    backends = set()
    unknown = None
    budget = [400]
    defs, named = name_applications(list(hyps), goal)
    if defs:
        hyps, goal = list(hyps) + defs, named
    try:
        for h, g in _leafs(list(hyps), goal, 12, budget):
            st, be, m = prove_leaf(h, g, ms, use_cvc5)
            if st == "refuted":
                return st, be, m
            if st == "unknown":
                unknown = be
            backends.add(be)
    except RecursionError:
        return "unknown", "recursion", None
    if unknown:
        return "unknown", unknown, None
    return "proved", "+".join(sorted(backends)) or "simplifier", None
