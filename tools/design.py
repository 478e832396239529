#!/opt/venv/bin/python
"""Regenerate section 2 (per property) and the planted-bug table of DESIGN.md (development helper, not used by the checks)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
from dv import env  # noqa

env.paths()
import meta  # noqa


def groups(names):
    out = {}
    for n in names:
        f, _, v = n.partition("[")
        out.setdefault(f, []).append(v.rstrip("]"))
    return "; ".join("`%s`%s" % (f, " ×%d" % len(v) if len(v) > 1 else "") for f, v in out.items())


def section():
    out = ["Every property is decided the same way: the listed functions run symbolically from /repo's current text under the contract's",
           "precondition, and every postcondition, frame condition and callee precondition is an obligation for z3/cvc5, with no bound on",
           "lengths, iterations or values. The oracle of an obligation is the specification term written in `props/cNN.py` (never the code's own",
           "output); the run-time form uses an independent oracle on the real code. “Cost” is the quick check on 8 cores.", ""]
    for p in meta.P:
        pid = p["pid"]
        mod = importlib.import_module("props." + pid.lower())
        try:
            ev = json.load(open(os.path.join(HERE, "evidence", pid + ".json")))
        except OSError:
            ev = None
        out.append("### %s %s" % (pid, p["title"]))
        out.append("")
        out.append("* Specified on: " + ", ".join("`%s` (%s)" % (a, os.path.basename(b)) for a, b in p["mech"]))
        out.append("* Contracts (%d): %s" % (len(mod.CONTRACTS), groups([c.name for c in mod.CONTRACTS])))
        out.append("* Strength: " + p["level_note"])
        if getattr(mod, "ASSUMPTIONS", None):
            out.append("* Assumed: " + "; ".join(mod.ASSUMPTIONS))
        out.append("* Beyond the tests: " + p["why"])
        if ev:
            c = ev["coverage"]
            out.append("* Cost: %s obligations, %s run-time evaluations, about %d s" % (c["obligations"], c["evaluations"], max(1, round(ev["wall_s"]))))
        out.append("")
    return "\n".join(out)


def seeded():
    rows = ["| planted bug | property | needs | reported by |", "|---|---|---|---|"]
    res = {}
    try:
        res = json.load(open(os.path.join(HERE, "tools", "seeded_results.json")))
    except OSError:
        pass
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        rows.append("| %s: %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), m["property"], m["needs"].replace("|", "/"), res.get(n, "")))
    return "\n".join(rows)


def main():
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    if "DESIGN_TABLE" in s:
        s = s.replace("DESIGN_TABLE", "<!-- properties -->\n<!-- end properties -->")
    if "SEEDED_TABLE" in s:
        s = s.replace("SEEDED_TABLE", "<!-- seeded -->\n<!-- end seeded -->")
    s = re.sub(r"<!-- properties -->.*<!-- end properties -->", lambda _: "<!-- properties -->\n" + section() + "<!-- end properties -->", s, flags=re.S)
    s = re.sub(r"<!-- seeded -->.*<!-- end seeded -->", lambda _: "<!-- seeded -->\n" + seeded() + "\n<!-- end seeded -->", s, flags=re.S)
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
