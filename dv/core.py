"""Core of the deductive verifier: symbolic state, path exploration, obligations.

The *real* source of /repo is executed by CPython on symbolic values (see
loader.py for how the text is obtained, values.py/shims.py for the semantics of
the values).  Every branch on a symbolic condition is explored by re-execution
with a decision prefix, so the set of paths is complete; every path yields
verification conditions, which are discharged by SMT (prover.py).
"""
import time
import traceback

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class EngineStop(BaseException):
    """Base of everything the code under test must not catch."""


class Unsupported(EngineStop):
    """The engine cannot represent this operation: no verdict, never an alarm."""


class Infeasible(EngineStop):
    """The current path condition is contradictory."""


class PathLimit(EngineStop):
    """Too many paths."""


class Deadline(EngineStop):
    """Out of time."""


def modelled(exc):
    """Tag an exception that a shim raises as the documented behaviour of the modelled library."""
    exc.__dv_modelled__ = True
    return exc


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Frame:
    """One level of exploration (top level, or a generic loop iteration)."""

    def __init__(self, base_pc):
        self.base = list(base_pc)
        self.prefix = []
        self.taken = []
        self.pos = 0


class Context:
    """Global symbolic execution state of one path."""

    def __init__(self, deadline=None, feas_ms=400):
        self.deadline = deadline
        self.feas_ms = feas_ms
        self.counter = 0
        self.reset_path([])
        self.max_paths = 4000
        self.npaths = 0
        self.feas_time = 0.0
        self.feas_queries = 0
        self.functions = {}     # qualname -> True, real functions entered
        self.assumptions = set()

    def reset_path(self, prefix):
        self.pc = []            # path condition (z3 Bool), includes assumptions
        self.facts = []         # facts valid on this path (axiom instances)
        self.fact_keys = set()
        self.decisions = []     # [(bool, forced)]
        self.prefix = list(prefix)
        self.events = []
        self.states = []          # outside state (file system) saved around loop branches
        self.obligations = []
        self.inputs = {}
        self.trapz = []
        self.arrays_seen = {}
        self.seed_facts = []
        self.loop_stack = []
        self.fresh_n = 0
        self.tags = []

    # ------------------------------------------------------------------ names
    def fresh(self, base="t"):
        if self.loop_stack:
            # named after the branch of the loop body, so that re-execution of a common prefix gives the same name
            fr = self.loop_stack[-1]
            key = "".join("t" if d[0] else "f" for d in fr.decisions)
            n = fr.names[key] = fr.names.get(key, 0) + 1
            return "%s!%s%s.%d" % (base, fr.id, key, n)
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def real(self, base="r"):
        return z3.Real(self.fresh(base))

    def int(self, base="i"):
        return z3.Int(self.fresh(base))

    def bool(self, base="b"):
        return z3.Bool(self.fresh(base))

    # ---------------------------------------------------------------- assuming
    def assume(self, cond):
        cond = as_bool(cond)
        self.pc.append(cond)

    def fact(self, cond, key=None):
        """Record a fact which is valid by construction (axiom instance, precondition instance)."""
        if key is None:
            key = cond.get_id()
            self.keep = getattr(self, "keep", [])
            self.keep.append(cond)
        if key in self.fact_keys:
            return
        self.fact_keys.add(key)
        self.facts.append(cond)

    def event(self, *ev):
        self.events.append(ev)

    # ---------------------------------------------------------------- deciding
    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline("time limit of the symbolic phase")

    def feasible(self, extra):
        self.check_deadline()
        t0 = time.time()
        from dv import prover
        res = prover.quick_sat(self.pc + [extra], self.facts, self.feas_ms)
        self.feas_time += time.time() - t0
        self.feas_queries += 1
        return res

    def alike(self, kind, terms, guard, dims, ms=1000):
        """Number of the class of functions defined by these terms (over a canonical index in guard).

        Two definitions get the same number on a path if they are syntactically equal or proved equal
        for every index under the path condition; where that stays undecided, refutations on the path
        count as unknown, because a model may tell apart what is equal.
        """
        from dv import prover
        tab = self.__dict__.setdefault("alike_tab", {}).setdefault((kind, self.npaths), [])
        terms = [z3.simplify(t) for t in terms]
        dims = [z3.simplify(d) for d in dims]
        for k, ts, ds in tab:
            if len(ts) == len(terms) and len(ds) == len(dims) and \
                    all(z3.eq(a, b) for a, b in zip(ts + ds, terms + dims)):
                return k
        num = len(tab)
        for k, ts, ds in tab:
            if len(ts) != len(terms) or len(ds) != len(dims) or \
                    any(a.sort() != b.sort() for a, b in zip(ts, terms)):
                continue
            hyps = self.pc + self.facts
            st = "proved"
            for goal, h in [(a == b, hyps) for a, b in zip(ds, dims)] + \
                    [(a == b, hyps + list(guard)) for a, b in zip(ts, terms)]:
                st = prover.prove_leaf(h, z3.simplify(goal), ms)[0]
                if st != "proved":
                    break
            if st == "proved":
                num = k
                break
            if st == "unknown":
                self.undecided = self.npaths
        tab.append((num, terms, dims))
        return num

    def decide(self, cond):
        """Choose a truth value for cond on this path (both are explored)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.loop_stack:
            return self.loop_stack[-1].decide(self, cond)
        i = len(self.decisions)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond))
            if ft == "unsat" and ff == "unsat":
                raise Infeasible()
            if ft == "unsat":
                val, forced = False, True
            elif ff == "unsat":
                val, forced = True, True
            else:
                val, forced = True, False
        self.decisions.append((val, forced))
        self.pc.append(cond if val else z3.Not(cond))
        return val

    # -------------------------------------------------------------- obligations
    def oblige(self, label, goal, **info):
        self.obligations.append(Obligation(label, list(self.pc), list(self.facts), as_bool(goal),
                                           dict(self.inputs), info, list(self.trapz), list(self.decisions)))
        self.obligations[-1].undecided = self.__dict__.get("undecided") == self.npaths


class Obligation:
    def __init__(self, label, pc, facts, goal, inputs, info, trapz, decisions):
        self.label, self.pc, self.facts, self.goal = label, pc, facts, goal
        self.inputs, self.info, self.trapz, self.decisions = inputs, info, trapz, decisions
        self.undecided = False
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.reason = ""


def as_bool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_expr(c):
        return c
    if hasattr(c, "z"):
        return c.z
    if type(c).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(c))
    raise Unsupported("not a boolean: %r" % (c,))


CTX = Context()


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class PathResult:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def explore(fn, deadline=None, max_paths=4000):
    """Run fn under every feasible decision sequence.  fn records obligations in the context."""
    c = Context(deadline)
    set_ctx(c)
    pending = [[]]
    results = []
    while pending:
        prefix = pending.pop()
        c.npaths += 1
        if c.npaths > max_paths:
            raise PathLimit("more than %d paths" % max_paths)
        c.reset_path(prefix)
        exc = None
        infeasible = False
        try:
            fn()
        except Infeasible:
            infeasible = True
        except EngineStop:
            raise
        except Exception as e:  # noqa
            exc = e
        # schedule siblings
        for i in range(len(c.prefix), len(c.decisions)):
            val, forced = c.decisions[i]
            if not forced:
                pending.append(c.decisions[:i] + [(not val, True)])
        if infeasible:
            continue
        if exc is not None and not any(z3.is_false(ob.goal) for ob in c.obligations):
            # (after an obligation that is plainly false the rest of the contract may not make sense)
            raise Unsupported("harness raised %s: %s\n%s" % (
                type(exc).__name__, exc,
                "".join(traceback.format_tb(exc.__traceback__)[-6:])))
        results.append(PathResult(pc=list(c.pc), facts=list(c.facts), obligations=c.obligations,
                                  events=c.events, decisions=list(c.decisions), tags=list(c.tags)))
    return c, results
