"""C30: text from files."""
import z3

from dv import conc, core
from dv.ioshims import mkworld
from dv.session import Contract
from dv.text import BYTES, SBytes, TextArr, decoded, npstr, valid
from dv.values import STR, SStr


def values(v):
    """kind -> (value, expected text as z3 term or None when it has to be refused)"""
    t = z3.Const("in:text", STR)
    b = z3.Const("in:bytes", BYTES)
    tx, by, dec = SStr.atom(t), SBytes(b), decoded(b)
    n = v.dim("n", lo=0)
    many = v.dim("many", lo=0)
    v.assume(many != 1)
    fl = v.arr("numbers", (1,))
    it = v.arr("ints", (1,), dt="i8")
    bo = v.arr("flags", (1,), dt="b1")
    return {
        "text": (tx, t), "numpy text": (npstr(t), t), "numpy bytes": (SBytes(b, True), dec), "bytes": (by, dec),
        "0-d array of bytes": (TextArr((), "S", by), dec), "0-d array of text": (TextArr((), "U", tx), t),
        "0-d array of objects (bytes)": (TextArr((), "O", by), dec), "0-d array of objects (text)": (TextArr((), "O", tx), t),
        "1-element array of bytes": (TextArr((1,), "S", by), dec), "1-element array of text": (TextArr((1,), "U", tx), t),
        "1-element array of objects (bytes)": (TextArr((1,), "O", by), dec), "1-element array of objects (text)": (TextArr((1,), "O", tx), t),
        "1x1 array of bytes": (TextArr((1, 1), "S", by), dec), "1x1 array of text": (TextArr((1, 1), "U", tx), t),
        "array of bytes, not one": (TextArr((many,), "S", by), None), "array of text, not one": (TextArr((many,), "U", tx), None),
        "array of objects, not one": (TextArr((many,), "O", by), None), "2-d array of text": (TextArr((n, 2), "U", tx), None),
        "0-d array of objects (a number)": (TextArr((), "O", 5), None), "1-element array of objects (a number)": (TextArr((1,), "O", v.num("y")), None),
        "1-element array of objects (None)": (TextArr((1,), "O", None), None), "1-element array of objects (a list)": (TextArr((1,), "O", ["hey"]), None),
        "1x1 array of objects (a dictionary)": (TextArr((1, 1), "O", {"a": "b"}), None),
        "numbers": (fl, None), "integers": (it, None), "flags": (bo, None), "a number": (v.num("x"), None), "None": (None, None),
        "an integer": (7, None), "a list": (["hey"], None), "a tuple": (("hey",), None), "a dictionary": ({"a": "b"}, None)}


NAMES = ["text", "numpy text", "numpy bytes", "bytes"] + ["%s array of %s" % (a, b) for a in ("0-d", "1-element") for b in ("bytes", "text", "objects (bytes)", "objects (text)")] + \
    ["1x1 array of bytes", "1x1 array of text"]
BAD = ["array of bytes, not one", "array of text, not one", "array of objects, not one", "2-d array of text", "numbers", "integers", "flags",
       "a number", "None", "an integer", "a list", "a tuple", "a dictionary", "0-d array of objects (a number)", "1-element array of objects (a number)",
       "1-element array of objects (None)", "1-element array of objects (a list)", "1x1 array of objects (a dictionary)"]


def conv(fname, kind):
    def f(v):
        mod = mkworld().load("pyspectral.utils")
        val, want = values(v)[kind]
        out = v.call(getattr(mod, fname), val)
        if fname == "np2str" and kind == "bytes":
            want = None
        if want is None or "bytes" in kind and not v.c.decide(valid(z3.Const("in:bytes", BYTES))):
            v.must_raise(out, ValueError, "refused")
        else:
            res = v.must(out, "returns")
            v.ensure("text", isinstance(res, SStr))
            v.ensure("the same text", res.z == want if isinstance(res, SStr) else core.FALSE)
    return f


def b2s(kind):
    def f(v):
        mod = mkworld().load("pyspectral.utils")
        val, want = values(v)[kind]
        out = v.call(mod.bytes2string, val)
        if "bytes" in kind and "array" not in kind and not v.c.decide(valid(z3.Const("in:bytes", BYTES))):
            return v.must_raise(out, ValueError, "bytes that are not text are refused")
        res = v.must(out, "returns")
        if "bytes" in kind and "array" not in kind:
            v.ensure("decoded", isinstance(res, SStr) and res.z == want)
        else:
            v.ensure("anything else unchanged", res is val)
    return f


CONTRACTS = [Contract("%s[%s]" % (f, k), conv(f, k)) for f in ("convert2str", "np2str") for k in NAMES + BAD] + \
    [Contract("bytes2string[%s]" % k, b2s(k)) for k in ("text", "bytes", "numpy bytes", "1-element array of bytes", "numbers", "None", "a list")]
ASSUMPTIONS = ["decoding is an uninterpreted partial function of the bytes and the encoding", "an object array holds text, bytes, a number, None, a list or a dictionary"]


# ---------------------------------------------------------------------------------- run-time form
TEXTS = ["hey", "", "MODIS", "µm ☃", "a" * 40, "x y/z", "\u00e5", "0", "a\x00b", "nul\x00", "b'x'", " lead", "trail "]


def cases(rng, tier):
    kinds = NAMES + BAD
    for k in range({"quick": 20000, "thorough": 20000, "search": 20000}[tier]):
        t = rng.choice(TEXTS) if rng.random() < 0.6 else "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xa0, 0x17f), 0x2603])) for _ in range(rng.randint(0, 12)))
        yield dict(fn=rng.choice(["convert2str", "convert2str", "np2str", "bytes2string"]), kind=rng.choice(kinds), t=t, n=rng.choice([0, 2, 3]),
                   junk=rng.random() < 0.08)


def run_case(case):
    import numpy as np
    from pyspectral import utils as u
    t, n, kind = case["t"], case["n"], case["kind"]
    b = t.encode("utf-8")
    if case.get("junk"):
        # bytes that are no text: never silently altered
        b = b[:2] + b"\xff\xfe" + b[2:] + b"x"
    if t.endswith("\0") and not ("objects" in kind or kind in ("text", "bytes")):
        t = t.rstrip("\0")  # numpy's own text and bytes types end at the last character that is not NUL
        b = t.encode("utf-8") if not case.get("junk") else b
    obj = lambda x, shape: np.array([x], dtype=object).reshape(shape)

    def lst():
        x = np.empty(1, object)
        x[0] = [t]
        return x
    val = {
        "text": t, "numpy text": np.str_(t), "numpy bytes": np.bytes_(b), "bytes": b,
        "0-d array of bytes": np.array(b), "0-d array of text": np.array(t), "0-d array of objects (bytes)": obj(b, ()), "0-d array of objects (text)": obj(t, ()),
        "1-element array of bytes": np.array([b]), "1-element array of text": np.array([t]), "1-element array of objects (bytes)": obj(b, (1,)),
        "1-element array of objects (text)": obj(t, (1,)), "1x1 array of bytes": np.array([[b]]), "1x1 array of text": np.array([[t]]),
        "array of bytes, not one": np.array([b] * n, "S"), "array of text, not one": np.array([t] * n, "U"), "array of objects, not one": np.array([b] * n, object),
        "2-d array of text": np.array([[t, t]] * n, "U").reshape(n, 2), "0-d array of objects (a number)": obj(5, ()), "1-element array of objects (a number)": obj(2.5, (1,)), "1-element array of objects (None)": obj(None, (1,)),
        "1-element array of objects (a list)": lst(), "1x1 array of objects (a dictionary)": obj({t: t}, (1, 1)),
        "numbers": np.array([1.5]), "integers": np.array([3]), "flags": np.array([True]),
        "a number": 2.5, "None": None, "an integer": 7, "a list": [t], "a tuple": (t,), "a dictionary": {t: t}}[kind]
    if kind in BAD or case["fn"] == "np2str" and kind == "bytes":
        want = None
    else:
        want = t
    if case.get("junk") and "bytes" in kind:
        want = None
    if case.get("junk") and case["fn"] == "bytes2string" and kind in ("bytes", "numpy bytes"):
        try:
            return "%r was turned into %r" % (val, u.bytes2string(val))
        except ValueError:
            return None
    if case["fn"] == "bytes2string":
        got = u.bytes2string(val)
        if kind in ("bytes", "numpy bytes"):
            tail = kind == "numpy bytes"
            w = bytes(val).decode("utf-8") if tail else t
            return None if type(got) is str and got == w else "%r gave %r" % (val, got)
        return None if got is val else "%r was changed to %r" % (val, got)
    try:
        got = getattr(u, case["fn"])(val)
    except ValueError:
        got = None
    if want is None:
        return None if got is None else "%r not refused but turned into %r" % (val, got)
    return None if isinstance(got, str) and got == want else "%r gave %r" % (val, got)
