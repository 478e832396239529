"""C23: configuration comes from the named file; nested settings merge without loss."""
import os

import z3

from dv import conc, core, loops
from dv.core import Unsupported
from dv.ioshims import FS, Environ, SPath, expanduser, mkworld, pjoin, s_parts
from dv.loops import Layer, SDict, VDict, note_key
from dv.session import Contract
from dv.values import STR, SNum, SStr, rv
from props import orc, sym
from props.c20 import effects, pick, zs

VAL = z3.DeclareSort("Setting")
ISMAP = z3.Function("is_nested", VAL, z3.BoolSort())
MERGED = z3.Function("MERGED", VAL, VAL, VAL)
NONE = z3.Const("empty_settings", VAL)


class Val:
    """A setting: a plain value, or nested settings."""

    def __init__(self, t): self.t = t
    def dv_ismap(self): return core.ctx().decide(ISMAP(self.t))
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("setting.%s" % n)


def term(v, x):
    if isinstance(x, Val):
        return x.t
    if isinstance(x, dict) and not dict.__len__(x) and not getattr(x, "layers", None) and not getattr(x, "symitems", None):
        return NONE
    raise Unsupported("setting of type %s" % type(x).__name__)


_sub = loops.subst


def val_subst(x, pairs):
    if isinstance(x, Val):
        return Val(z3.substitute(x.t, *pairs))
    return _sub(x, pairs)


loops.subst = val_subst


def layered(dom, val):
    """A dictionary with arbitrary keys: {k: val(k) if dom(k)}"""
    d = VDict()
    K = z3.Const("k0", STR)
    d.layers.append(Layer([K], dom(K), Val(val(K))))
    return d


def merge(v):
    """One level of the merge: arbitrary keys in both; the level below enters by this same contract (induction on nesting)."""
    D, U = z3.Function("in:in_old", STR, z3.BoolSort()), z3.Function("in:in_new", STR, z3.BoolSort())
    vd, vu = z3.Function("in:old", STR, VAL), z3.Function("in:new", STR, VAL)
    w = mkworld()
    mod = w.load("pyspectral.config")
    real = mod.recursive_dict_update
    d, u = layered(D, vd), SDict("u", U, lambda k: Val(vu(k)))
    v.assume(ISMAP(NONE))
    inner = []

    def induction(a, b):
        at, bt = term(v, a), term(v, b)
        inner.append((at, bt))
        note = z3.And(ISMAP(at), ISMAP(bt))
        v.ensure("nested settings merge with nested settings", z3.Implies(pre(), note))
        return Val(MERGED(at, bt))

    def pre():
        # settings are not replaced by nested settings (precondition)
        return z3.And(*[z3.Implies(z3.And(D(k[0]), U(k[0]), ISMAP(vu(k[0]))), ISMAP(vd(k[0]))) for k in loops.keyterms()
                        if k[0].sort() == STR] or [core.TRUE])
    mod.recursive_dict_update = induction
    r = v.must(v.call(real, d, u), "returns")
    v.ensure("the old settings, updated", r is d)
    k = z3.Const("in:key", STR)
    v.c.inputs["key"] = ("str", k)
    note_key([k])
    key = SStr.atom(k)
    present = key in r
    v.ensure("no setting lost, none invented", z3.BoolVal(present) == z3.Or(D(k), U(k)))
    if present:
        got = r[key]
        want = z3.If(z3.Not(U(k)), vd(k), z3.If(ISMAP(vu(k)), MERGED(z3.If(D(k), vd(k), NONE), vu(k)), vu(k)))
        v.ensure("new settings win, others are kept", term(v, got) == want)


def merge_small(v):
    """Two concrete levels through the real recursion."""
    w = mkworld()
    mod = w.load("pyspectral.config")
    a, b, c, e = (v.num(x) for x in "abce")
    d = sym.mkd({"x": sym.mkd({"p": a, "q": b}), "y": a, "z": sym.mkd({"deep": sym.mkd({"m": a, "n": b})})})
    u = sym.mkd({"x": sym.mkd({"q": c, "r": e}), "w": sym.mkd({"s": e}), "z": sym.mkd({"deep": sym.mkd({"n": c}), "t": e})})
    r = v.must(v.call(mod.recursive_dict_update, d, u), "returns")
    want = {"x": {"p": a, "q": c, "r": e}, "y": a, "w": {"s": e}, "z": {"deep": {"m": a, "n": c}, "t": e}}

    def same(tag, g, w_):
        if isinstance(w_, dict):
            v.ensure(tag + " nested", isinstance(g, dict))
            v.ensure(tag + " keys", sorted(dict.keys(g)) == sorted(w_))
            for k in w_:
                same(tag + "/" + k, dict.__getitem__(g, k), w_[k])
        else:
            v.ensure_el(tag, g, w_.r)
    same("", r, want)
    v.ensure("frame: new settings unchanged", sorted(dict.keys(u["x"])) == ["q", "r"] and sorted(dict.keys(u["z"]["deep"])) == ["n"])


def config(v):
    """Which file is read, what comes back, which directories exist."""
    fs = FS()
    env = Environ()
    ev = v.str("env_file")
    has = z3.Bool("in:env set")
    env.sym["PSP_CONFIG_FILE"] = (has, ev)
    loaded, want = {}, {}
    for k in ("rsr_dir", "rayleigh_dir"):
        if v.c.decide(z3.Bool("in:has " + k)):
            loaded[k] = v.str(k)
        want[k] = loaded.get(k, SStr.atom(z3.Const("in:user_data_dir", STR)))
    other = v.num("other")
    loaded["other"] = other
    loaded["nested"] = sym.mkd({"a": other, "b": sym.mkd({"c": other})})
    opened = []

    def load(f):
        opened.append(f.p)
        return sym.mkd(loaded)
    w = mkworld(fs=fs, environ=env, yaml_load=load)
    mod = w.load("pyspectral.config")
    n0 = len(v.c.events)
    how = pick(v, "given", ["none", "str", "path"])
    fn = v.str("config_file")
    ISF, EX = fs.ISF, fs.EX
    out = v.call(mod.get_config, *({"none": [], "str": [fn], "path": [SPath(fn)]}[how]))
    if how == "none":
        if v.c.decide(has):
            src = ev
            if not v.c.decide(z3.And(EX(ev.z), ISF(ev.z))):
                v.must_raise(out, OSError, "file named by the environment must exist")
                v.ensure("nothing read or written", not opened and not effects(v, n0))
                return
        else:
            src = None
    else:
        src = fn
    if not out.ok:
        v.must_raise(out, OSError, "unreadable file")
        v.ensure("only for a missing file", z3.Not(EX(zs(src if src is not None else opened[0] if opened else mod.BUILTIN_CONFIG_FILE))))
        return
    r = out.value
    v.ensure("one file read", len(opened) == 1)
    p = opened[0]
    if src is not None:
        v.ensure("the file named", zs(p) == zs(src))
    else:
        v.ensure("the built-in file", str(p).endswith("pyspectral/etc/pyspectral.yaml"))
    for k in ("rsr_dir", "rayleigh_dir"):
        v.ensure(k + " of the file, else the user data directory; home expanded", zs(r[k]) == zs(expanduser(want[k])))
        v.ensure(k + " exists afterwards", fs.exists_z(r[k]))
    v.ensure("every setting and no other", sorted(dict.keys(r)) == ["nested", "other", "rayleigh_dir", "rsr_dir"])
    v.ensure_el("plain setting", r["other"], other.r)
    v.ensure_el("nested setting", r["nested"]["a"], other.r)
    v.ensure_el("deeply nested setting", r["nested"]["b"]["c"], other.r)
    v.ensure("only directories made", all(e[0] in ("mkdir", "yaml-load") for e in effects(v, n0)))


CONTRACTS = [Contract("recursive_dict_update[one level, any keys]", merge), Contract("recursive_dict_update[levels]", merge_small),
             Contract("get_config", config)]
ASSUMPTIONS = ["yaml.load returns the file's content (a mapping)", "a plain setting is not overridden by nested ones (recursive_dict_update "
               "does not define that case)"]


# ---------------------------------------------------------------------------------- run-time form
def tree(rng, depth, keys):
    d = {}
    for k in rng.sample(keys, rng.randint(0, len(keys))):
        d[k] = tree(rng, depth - 1, keys) if depth and rng.random() < 0.45 else rng.choice([1, "s", None, False, 0, "", 2.5, [1, 2]])
    return d


def fits(d, u):
    """u may be merged into d: nested settings only over nested or absent ones."""
    return all(not isinstance(x, dict) or k not in d or isinstance(d[k], dict) and fits(d[k], x) for k, x in u.items())


def oracle(d, u):
    out = dict(d)
    for k, x in u.items():
        out[k] = oracle(d.get(k, {}), x) if isinstance(x, dict) else x
    return out


def readonly(u):
    """The same settings as read-only mappings."""
    from types import MappingProxyType
    return MappingProxyType({k: readonly(x) if isinstance(x, dict) else x for k, x in u.items()})


def cases(rng, tier):
    for k in range({"quick": 3000, "thorough": 4000, "search": 5000}[tier]):
        if k % 2:
            keys = ["a", "b", "c", "d"][:rng.randint(1, 4)]
            d, u = tree(rng, 3, keys), tree(rng, 3, keys)
            while not fits(d, u):
                d, u = tree(rng, 3, keys), tree(rng, 3, keys)
            yield dict(kind="merge", d=d, u=u, ro=rng.random() < 0.25)
        else:
            yield dict(kind="config", env=rng.choice(["unset", "file", "file", "missing", "dir", "empty"]), given=rng.choice([None, None, "str", "path", "missing"]),
                       rsr=rng.choice([None, "rsr", "~/rsr x", "a/b/c"]), ray=rng.choice([None, "ray", "~/deep/er"]),
                       made=rng.random() < 0.5, extra=tree(rng, 2, ["o", "p", "q"]))


def run_case(case):
    import copy
    import shutil
    from pathlib import Path
    import yaml
    orc.configure()
    from pyspectral import config
    if case["kind"] == "merge":
        d, u = copy.deepcopy(case["d"]), copy.deepcopy(case["u"])
        r = config.recursive_dict_update(d, readonly(u) if case.get("ro") else u)
        if r != oracle(case["d"], case["u"]):
            return "merged %r, expected %r" % (r, oracle(case["d"], case["u"]))
        return None if u == case["u"] else "new settings were modified"
    d = os.path.join(orc.scratch(), "c23")
    shutil.rmtree(d, ignore_errors=True)
    home = os.path.join(d, "home")
    os.makedirs(home)
    saved = dict(os.environ)
    try:
        os.environ["HOME"] = home
        for k in ("XDG_DATA_HOME", "PSP_CONFIG_FILE"):
            os.environ.pop(k, None)

        def put(name, tag):
            c = dict(case["extra"], tag=tag)
            for k, x in (("rsr_dir", case["rsr"]), ("rayleigh_dir", case["ray"])):
                if x is not None:
                    c[k] = x if x.startswith("~") else os.path.join(d, tag, x)
                    if case["made"]:
                        os.makedirs(os.path.expanduser(c[k]), exist_ok=True)
            with open(os.path.join(d, name), "w") as f:
                yaml.safe_dump(c, f)
            return os.path.join(d, name), c
        fe, ce = put("env.yaml", "env")
        fg, cg = put("given file.yaml", "given")
        if case["env"] != "unset":
            os.environ["PSP_CONFIG_FILE"] = {"file": fe, "missing": fe + "x", "dir": d, "empty": ""}[case["env"]]
        arg = {None: [], "str": [fg], "path": [Path(fg)], "missing": [fg + "x"]}[case["given"]]
        want = None
        if case["given"] in ("str", "path"):
            want = cg
        elif case["given"] is None and case["env"] == "file":
            want = ce
        elif case["given"] is None and case["env"] == "unset":
            want = yaml.safe_load(open(os.path.join(os.path.dirname(config.__file__), "etc", "pyspectral.yaml")))
        try:
            r = config.get_config(*arg)
        except OSError as e:
            return None if want is None else "refused: %r" % e
        if want is None:
            return "a file that does not exist was accepted"
        from platformdirs import AppDirs
        w = dict(want)
        for k in ("rsr_dir", "rayleigh_dir"):
            w[k] = os.path.expanduser(w.get(k, AppDirs("pyspectral", "pytroll").user_data_dir))
            if not w[k].startswith(d):
                raise conc.Skip("outside scratch")
            if not os.path.isdir(w[k]):
                return "%s not made" % w[k]
        if r != w:
            return "configuration %r, expected %r" % (r, w)
    finally:
        os.environ.clear()
        os.environ.update(saved)
        shutil.rmtree(d, ignore_errors=True)
        orc.configure()
