"""Mechanical extraction of the code under contract.

On every run the text of /repo/pyspectral/*.py is read, parsed, rewritten by the
transformation below and executed by CPython in private module objects.  The
transformation keeps every statement; it only
  * wraps float literals (exact decimal value instead of the nearest double),
  * wraps dict displays / comprehensions, f-strings and str.format so that symbolic keys and
    pieces are handled,
  * turns `for` loops and comprehensions over *symbolic* collections into calls of the loop rule
    (loops over ordinary collections run unchanged),
  * routes attribute stores through a hook (needed for the loop rule).
Nothing is dropped.  Dependencies are replaced by the assumed contracts in shims.py / ioshims.py.
"""
import ast
import builtins as rb
import hashlib
import os
import sys
import types

from dv import core, loops
from dv.core import Unsupported

REPO = os.environ.get("DV_REPO", "/repo")


class Xform(ast.NodeTransformer):
    def __init__(self, src):
        self.src = src
        self.n = 0
        self.func_depth = 0
        self.locals = []

    # ------------------------------------------------------------- expressions
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            seg = ast.get_source_segment(self.src, node) or repr(node.value)
            seg = seg.replace("_", "")
            return ast.copy_location(_call("q", [ast.Constant(seg)]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkdict", [node]), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("mklist", [node]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(_call("fpart", [val, ast.Constant(v.conversion), spec]))
        return ast.copy_location(_call("fstr", [ast.List(parts, ast.Load())]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "format":
            return ast.copy_location(ast.Call(_attr("fmt"), [f.value] + node.args, node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr == "join":
            return ast.copy_location(ast.Call(_attr("join"), [f.value] + node.args, node.keywords), node)
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            return node
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(_call("strmod", [node.left, node.right]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _call("contains", [node.comparators[0], node.left])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def _comp(self, node, kind):
        # single generator comprehensions are routed through the loop rule at run time
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        self.n += 1
        arg = "__it%d" % self.n
        names = _target_names(g.target)
        if names is None:
            return node
        # lambda target: (elt)   -- the target is unpacked with a nested lambda through 'spread'
        def lam(body):
            return ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
        cond = ast.Constant(True)
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs))
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == "dict" else node.elt
        return ast.copy_location(_call("comp", [ast.Constant(kind), g.iter, lam(cond), lam(elt),
                                                ast.Constant(_target_shape(g.target))]), node)

    def visit_ListComp(self, node): return self._comp(node, "list")
    def visit_SetComp(self, node): return self._comp(node, "set")
    def visit_DictComp(self, node): return self._comp(node, "dict")
    def visit_GeneratorExp(self, node): return self._comp(node, "gen")

    # -------------------------------------------------------------- statements
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.func_depth += 1
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.func_depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if self.func_depth == 0:
            return node if node.value is None else ast.copy_location(
                ast.AnnAssign(node.target, ast.Constant("x"), self.visit(node.value), node.simple), node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.func_depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call("setattr", [t.value, ast.Constant(t.attr), node.value])), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if self.func_depth == 0 or _has_yield(node) or node.orelse or _has_nested_control(node.body):
            return node
        self.n += 1
        it, bd, rs = "_dvit%d" % self.n, "_dvbody%d" % self.n, "_dvres%d" % self.n
        assigned = sorted(_assigned(node.body) | _assigned_t(node.target))
        body = [_LoopCtl().visit(_clone(s)) for s in node.body]
        body = [x for s in body for x in (s if isinstance(s, list) else [s])]
        fbody = []
        if assigned:
            fbody.append(ast.Nonlocal(assigned))
        fbody.append(ast.Assign([_clone(node.target)], ast.Name("_dvitem", ast.Load())))
        fbody += body
        fbody.append(ast.Return(ast.Constant(None)))
        fdef = ast.FunctionDef(bd, ast.arguments([], [ast.arg("_dvitem")], None, [], [], None, []), fbody, [],
                               type_params=[])
        new = [
            ast.Assign([ast.Name(it, ast.Store())], _call("iter", [node.iter])),
            ast.If(_call("is_symiter", [ast.Name(it, ast.Load())]),
                   [fdef,
                    ast.Assign([ast.Name(rs, ast.Store())],
                               _call("run_loop", [ast.Name(it, ast.Load()), ast.Name(bd, ast.Load())])),
                    ast.If(ast.Compare(ast.Name(rs, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                           [ast.Return(ast.Attribute(ast.Name(rs, ast.Load()), "value", ast.Load()))], [])],
                   [ast.For(node.target, ast.Name(it, ast.Load()), node.body, [])]),
        ]
        for x in new:
            ast.copy_location(x, node)
        return new

    def visit_ImportFrom(self, node):
        return node

    def visit_With(self, node):
        self.generic_visit(node)
        return node


def _clone(n):
    import copy
    return copy.deepcopy(n)


def _attr(name):
    return ast.Attribute(ast.Name("_dv_hooks", ast.Load()), name, ast.Load())


def _call(name, args):
    return ast.Call(_attr(name), args, [])


class _LoopCtl(ast.NodeTransformer):
    """continue/break/return inside an extracted loop body."""

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(ast.Constant(None)), node)

    def visit_Break(self, node):
        return ast.copy_location(ast.Return(_attr("BREAK")), node)

    def visit_Return(self, node):
        return ast.copy_location(ast.Return(_call("Ret", [node.value or ast.Constant(None)])), node)

    def visit_FunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node

    def visit_For(self, node):
        # an inner (untransformed) loop keeps its own break/continue
        return node

    def visit_While(self, node):
        return node


def _has_nested_control(body):
    """Inner ordinary loops containing return: not handled by the extraction."""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.While,)):
                return True
            if isinstance(n, ast.For):
                if any(isinstance(m, ast.Return) for m in ast.walk(n)):
                    return True
    return False


def _has_yield(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))


def _assigned(body):
    out = set()
    for s in body:
        for n in _walk_scope(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def _walk_scope(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.SetComp,
                      ast.GeneratorExp)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _walk_scope(c)


def _assigned_t(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
        return [e.id for e in t.elts]
    return None


def _target_shape(t):
    return len(t.elts) if isinstance(t, ast.Tuple) else 0


_CODE = {}


def source_files():
    d = os.path.join(REPO, "pyspectral")
    b = os.path.join(REPO, "bin")
    scripts = {"bin." + f[:-3]: os.path.join(b, f) for f in sorted(os.listdir(b)) if f.endswith(".py")} if os.path.isdir(b) else {}
    return scripts | {"pyspectral." + f[:-3] if f != "__init__.py" else "pyspectral": os.path.join(d, f)
            for f in sorted(os.listdir(d)) if f.endswith(".py")}


def compiled(name):
    files = source_files()
    if name not in files:
        raise ImportError(name)
    path = files[name]
    if name not in _CODE:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        raises = [(n.lineno, n.end_lineno) for n in ast.walk(tree) if isinstance(n, ast.Raise)]
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                names.setdefault(n.name, []).append(n.lineno)
        new = Xform(src).visit(ast.parse(src))
        ast.fix_missing_locations(new)
        code = compile(new, path, "exec", dont_inherit=True)
        _CODE[name] = (code, src, raises, hashlib.sha256(src.encode()).hexdigest())
    return _CODE[name]


def explicit_raise(exc):
    """Was exc raised by a raise statement of the code under test, or by a modelled dependency?"""
    if getattr(exc, "__dv_modelled__", False):
        return True
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    for name, (code, src, raises, h) in _CODE.items():
        if fn == source_files().get(name):
            return any(a <= last.tb_lineno <= b for a, b in raises)
    return False


class World:
    """One private instantiation of the package (fresh for every path)."""

    def __init__(self, shims, overrides=None, builtins=None):
        self.shims = shims
        self.overrides = overrides or {}
        self.modules = {}
        self.extra_builtins = builtins or {}

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.overrides and isinstance(self.overrides[name], types.ModuleType):
            return self.overrides[name]
        code, src, _, _ = compiled(name)
        m = types.ModuleType(name)
        m.__file__ = source_files()[name]
        m.__package__ = "pyspectral"
        bi = dict(vars(rb))
        bi.update(loops.BUILTINS)
        bi.update(self.extra_builtins)
        bi["__import__"] = self.imp
        m.__dict__["__builtins__"] = bi
        m.__dict__["_dv_hooks"] = loops.HOOKS
        self.modules[name] = m
        if "." in name:
            par = self.load(name.rsplit(".", 1)[0]) if name != "pyspectral" else None
        exec(code, m.__dict__)
        ov = self.overrides.get(name)
        if isinstance(ov, dict):
            for k, v in ov.items():
                if k in m.__dict__:
                    m.__dict__[k] = v
        if "." in name:
            setattr(self.modules["pyspectral"], name.split(".")[1], m)
        return m

    def script(self, name):
        """Run a command line program of the repository (its code with __name__ == "__main__")."""
        code, src, _, _ = compiled("bin." + name)
        m = types.ModuleType("__main__")
        bi = dict(vars(rb))
        bi.update(loops.BUILTINS)
        bi.update(self.extra_builtins)
        bi["__import__"] = self.imp
        m.__dict__.update(__builtins__=bi, _dv_hooks=loops.HOOKS, __file__=source_files()["bin." + name])
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = "pyspectral" + ("." + name if name else "")
        if name == "pyspectral" or name.startswith("pyspectral."):
            if name == "pyspectral.version":
                m = types.ModuleType(name)
                m.version = m.__version__ = "0"
                return m
            m = self.load(name)
            if fromlist:
                if name == "pyspectral":
                    for f in fromlist:
                        if not hasattr(m, f):
                            self.load("pyspectral." + f)
                return m
            return self.load("pyspectral")
        if name in self.shims:
            m = self.shims[name]
            if fromlist or "." not in name:
                return m
            top = name.split(".")[0]
            return self.shims.get(top) or _pkg(top, self.shims)
        raise Unsupported("import of %s is not modelled" % name)


def _pkg(top, shims):
    m = types.ModuleType(top)
    for k, v in shims.items():
        if k.startswith(top + ".") and k.count(".") == 1:
            setattr(m, k.split(".")[1], v)
    return m
