"""Command line programs: argparse as a contract (declared options; given ones get their value, the others the default)."""
import types

from dv import core, loops


class UsageError(Exception):
    __dv_modelled__ = True


class Parser:
    """given: {flag: value} as on a command line, a flag spelled in any declared way."""

    def __init__(self, given):
        self.given, self.opts = given, []

    def add_argument(self, *flags, **kw):
        extra = set(kw) - {"nargs", "help", "type", "default", "action", "required", "metavar", "dest"}
        if extra or kw.get("action", "store") not in ("store", "store_true") or any(not str(f).startswith("-") for f in flags):
            raise core.Unsupported("argparse option %r %r" % (flags, sorted(extra)))
        flags = [str(f) for f in flags]
        lng = [f for f in flags if f.startswith("--")]
        dest = str(kw.get("dest") or (lng or flags)[0].lstrip("-").replace("-", "_"))
        self.opts.append((flags, dest, kw))

    def parse_args(self, args=None):
        ns = types.SimpleNamespace()
        left = dict(self.given)
        for flags, dest, kw in self.opts:
            flag = kw.get("action") == "store_true"
            hit = [f for f in flags if f in left]
            if hit:
                val = left.pop(hit[0])
                if flag != (val is True):
                    raise UsageError(hit[0])
            else:
                if kw.get("required"):
                    raise UsageError(flags[0])
                val = kw.get("default", False if flag else None)
            setattr(ns, dest, val)
        if left:
            raise UsageError(sorted(left)[0])
        return ns


def module(given):
    m = types.ModuleType("argparse")
    m.ArgumentParser = lambda *a, **k: Parser(given)
    m.RawTextHelpFormatter = m.ArgumentDefaultsHelpFormatter = m.RawDescriptionHelpFormatter = object
    return m


def run_real(name, argv):
    """The real program, in this process."""
    import logging
    import os
    import runpy
    import sys
    from dv.env import REPO
    log = logging.getLogger("")
    old, lvl, hs = sys.argv, log.level, list(log.handlers)
    path = os.path.join(REPO, "bin", name + ".py")
    sys.argv = [path] + argv
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
        log.setLevel(lvl)
        log.handlers = hs
