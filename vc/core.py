"""Core of the VC generator: terms, path exploration, solver interface, obligations.

Mathematical reading: Python ints are z3 Int, floats are z3 Real (decimal literals exact).
Transcendental functions are uninterpreted with the axioms listed in AXIOMS below,
instantiated for every application occurring in a query.
"""
import fractions
import hashlib
import math
import numbers
import time
import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """A construct outside the engine's subset (never a verdict about the code)."""


class PathEnd(BaseException):
    """The current symbolic path ends here (infeasible, or end of a loop body)."""


class Restart(BaseException):
    """A loop invariant was refined: re-explore from scratch."""


class EngineError(BaseException):
    pass


StrSort = z3.DeclareSort("Str")
ObjSort = z3.DeclareSort("Obj")

R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()

PI = z3.Real("PI")
F_cos = z3.Function("cos", R, R)
F_sin = z3.Function("sin", R, R)
F_tan = z3.Function("tan", R, R)
F_sqrt = z3.Function("sqrt", R, R)
F_atan2 = z3.Function("atan2", R, R, R)
F_acos = z3.Function("acos", R, R)
F_exp = z3.Function("exp", R, R)
F_log2 = z3.Function("log2", R, R)
F_rnd = z3.Function("rnd", R, I)  # round half even
F_powr = z3.Function("powr", R, R, R)
F_strlen = z3.Function("strlen", StrSort, I)
F_lastchar = z3.Function("lastchar", StrSort, I)
F_p16 = z3.Function("p16", I, R)  # 16**k for integer k
F_p2 = z3.Function("p2", I, R)

NONNEG = set()  # names of int functions known to be >= 0 (list lengths ...)
POSITIVE = set()  # names known >= 1
_axiom_hooks = {}  # function name -> callable(app) -> list of z3 facts


def quarter(t):
    """k if t is k PI/2 for an integer constant k, else None"""
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return 0 if t.as_fraction() == 0 else None
    if t.eq(PI):
        return 2
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(1).eq(PI):
        q = t.arg(0).as_fraction() * 2
        return int(q) if q.denominator == 1 else None
    return None


def axioms_for(app):
    d = app.decl()
    name = d.name()
    out = []
    if name == "cos" or name == "sin":
        a = app.arg(0)
        out.append(F_cos(a) * F_cos(a) + F_sin(a) * F_sin(a) == 1)
    elif name == "sqrt":
        a = app.arg(0)
        out.append(z3.Implies(a >= 0, z3.And(app >= 0, app * app == a)))
        out.append(z3.Implies(a > 0, app > 0))
    elif name == "rnd":
        a = app.arg(0)
        out.append(z3.And(2 * z3.ToReal(app) <= 2 * a + 1, 2 * z3.ToReal(app) >= 2 * a - 1))
        out.append(z3.Implies(z3.IsInt(a), z3.ToReal(app) == a))
    elif name == "strlen":
        out.append(app >= 0)
    elif name == "p16" or name == "p2":
        a = app.arg(0)
        b = 16 if name == "p16" else 2
        f = F_p16 if name == "p16" else F_p2
        out.append(app > 0)
    if name in NONNEG:
        out.append(app >= 0)
    if name in POSITIVE:
        out.append(app >= 1)
    if name == "lastchar":
        out.append(z3.And(app >= 1, app <= 127))
    h = _axiom_hooks.get(name)
    if h:
        out.extend(h(app))
    return out


PI_FACTS = [PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")]

_lit_strs = {}


def str_lit(s):
    if s not in _lit_strs:
        _lit_strs[s] = z3.Const("strlit_%d" % len(_lit_strs), StrSort)
    return _lit_strs[s]


_lit_by_name = None


def collect_apps(terms, seen=None):
    """All subterms that are uninterpreted applications/constants, each once."""
    seen = set() if seen is None else seen
    out = []
    stack = list(terms)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            stack.extend(t.children())
    return out


def all_axioms(terms):
    seen = set()
    facts = []
    pending = list(terms)
    lits = {}
    rounds = 0
    while pending and rounds < 4:
        rounds += 1
        apps = collect_apps(pending, seen)
        new = []
        for a in apps:
            nm = a.decl().name()
            if nm == "PI":
                facts.extend(PI_FACTS)
            elif nm.startswith("strlit_"):
                lits[nm] = a
            new.extend(axioms_for(a))
        facts.extend(new)
        pending = new
    if lits:
        inv = {c.decl().name(): s for s, c in _lit_strs.items()}
        if len(lits) > 1:
            facts.append(z3.Distinct(*lits.values()))
        for nm, c in lits.items():
            facts.append(F_strlen(c) == len(inv[nm]))
    return facts


class Obligation(object):
    __slots__ = ("name", "status", "path", "model", "detail", "secs", "backend", "abstract", "choices", "apps")

    def __init__(self, name, status, path, detail="", secs=0.0, backend="z3", model=None, abstract=False):
        self.name, self.status, self.path, self.detail = name, status, path, detail
        self.secs, self.backend, self.model, self.abstract = secs, backend, model, abstract
        e = Engine.cur
        self.choices = dict(e.ghost.get("choices", {})) if e is not None and status != "proved" else {}
        self.apps = ()


class _Entry(object):
    __slots__ = ("n", "cur", "forced", "info", "nob")

    def __init__(self, n, cur=0, forced=False, info=None):
        self.n, self.cur, self.forced, self.info = n, cur, forced, info


class Engine(object):
    cur = None

    def __init__(self, timeout_ms=8000, deadline=None, max_paths=6000):
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.table = {}
        self.obligations = []
        self.solver_secs = 0.0
        self.queries = 0
        self.covers = {}
        self.interpreted = {}  # function name -> number of symbolic executions
        self.paths_done = 0
        self.summaries = {}
        self.native_ok = 0
        self.log = []
        self._eqcache = {}
        self.restarts = 0
        self.infer = {}
        self.members = {}

    # ---- exploration -------------------------------------------------
    def explore(self, fn):
        Engine.cur = self
        for attempt in range(200):
            try:
                return self._explore(fn)
            except Restart:
                continue
        raise Unsupported("loop invariants did not stabilise")

    def _explore(self, fn):
        self.trail = []
        self.obligations = []
        self.loop_runs = {}
        self.paths_done = 0
        while True:
            self._reset_path()
            try:
                fn()
            except PathEnd:
                pass
            except Restart as r:
                if not r.args or r.args[0] >= len(self.trail):
                    raise
                self._rewind(r.args[0])
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget for symbolic execution used up")
                self.restarts += 1
                if self.restarts > 3000:
                    raise Unsupported("loop invariants keep changing")
                continue
            except Unsupported as e:
                if self._check(self.facts) == z3.unsat:
                    pass  # the path is infeasible
                else:
                    raise
            self.paths_done += 1
            if self.paths_done > self.max_paths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for symbolic execution used up")
            # advance
            while self.trail:
                e = self.trail[-1]
                n = e.n() if callable(e.n) else e.n
                if not e.forced and e.cur + 1 < n:
                    e.cur += 1
                    break
                self.trail.pop()
            else:
                for st in self.table.values():
                    if getattr(st, "is_probe", False) and st.step is None and not st.failed:
                        raise Unsupported("no step found for a while loop")
                return

    def _rewind(self, p):
        """explore again from the decision at position p (a loop whose invariant was refined)"""
        ent = self.trail[p]
        pre = tuple((e.cur, e.forced) for e in self.trail[:p])
        del self.obligations[ent.nob:]
        del self.trail[p:]
        for key in [k for k in self.loop_runs if k[1][:p] == pre]:
            del self.loop_runs[key]
        for info in self.table.values():
            ps = getattr(info, "paths", None)
            if ps:
                info.paths = [r for r in ps if r["at"][:p] != pre]

    def _reset_path(self):
        self.pos = 0
        self.facts = []
        self.nfacts_ax = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.ax_seen = set()
        self.pending_new = []
        self.lits = {}
        self.counter = 0
        self.loops = []
        self.objs = {}
        self.uids = {}
        self.uid_counter = 0
        self.decisions = []  # (z3 cond) decided on this path, in order
        self.keep = []
        self.ghost = {}

    # deterministic ids of heap objects
    def register(self, obj):
        self.uid_counter += 1
        u = self.uid_counter
        self.objs[u] = obj
        self.uids[id(obj)] = u
        self.keep.append(obj)
        return u

    def uid(self, obj):
        return self.uids.get(id(obj))

    def fresh_name(self, prefix):
        self.counter += 1
        h = "".join(str(e.cur) for e in self.trail[: self.pos])
        return "%s!%d_%s" % (prefix, self.counter, h if len(h) <= 40 else hashlib.md5(h.encode()).hexdigest())

    def index_args(self):
        return [l.ivar for l in self.loops if l.ivar is not None]

    def fresh(self, prefix, sort, dep=True):
        """Fresh symbol; inside generic loop bodies it is a function of the loop indices."""
        args = self.index_args() if dep else []
        nm = self.fresh_name(prefix)
        if not args:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([a.sort() for a in args] + [sort]))
        return f(*args)

    def choose(self, n, info=None):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
        else:
            e = _Entry(n, 0, False, info)
            e.nob = len(self.obligations)
            self.trail.append(e)
        self.pos += 1
        return e.cur

    def prefix_key(self):
        return tuple((e.cur, e.forced) for e in self.trail[: self.pos])

    def assume(self, fact):
        if isinstance(fact, bool):
            if not fact:
                raise PathEnd()
            return
        self.facts.append(fact)
        self.solver.add(fact)
        self._add_axioms([fact])

    def _add_axioms(self, terms, solver=None):
        pending = list(terms)
        for _ in range(4):
            self.keep.append(pending)
            apps = collect_apps(pending, self.ax_seen)
            new = []
            for a in apps:
                nm = a.decl().name()
                if nm == "PI":
                    new.extend(PI_FACTS)
                elif nm.startswith("strlit_"):
                    for o in self.lits.values():
                        new.append(o != a)
                    self.lits[nm] = a
                    for s, c in _lit_strs.items():
                        if c.decl().name() == nm:
                            new.append(F_strlen(a) == len(s))
                new.extend(axioms_for(a))
            for f in new:
                self.solver.add(f)
            if not new:
                break
            pending = new

    def _check(self, facts, extra=None, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        ts = list(facts) + (list(extra) if extra else [])
        for t in ts:
            s.add(t)
        for a in all_axioms(ts):
            s.add(a)
        t0 = time.time()
        r = s.check()
        self.solver_secs += time.time() - t0
        self.queries += 1
        return r

    def feasible(self, cond):
        self._add_axioms([cond])
        self.solver.push()
        self.solver.add(cond)
        self.solver.set("timeout", 3000)
        t0 = time.time()
        r = self.solver.check()
        if r != z3.unsat and self.aggregates is not None and not self.in_aggregates:
            self.in_aggregates = True
            try:
                extra = self.aggregates(cond)
            finally:
                self.in_aggregates = False
            if extra:
                # axioms hold on the whole path
                self.solver.pop()
                self._add_axioms(extra)
                self.solver.push()
                self.solver.add(cond)
                for f in extra:
                    self.solver.add(f)
                r = self.solver.check()
        self.solver_secs += time.time() - t0
        self.queries += 1
        self.solver.pop()
        return r != z3.unsat

    # facts about the sums, minima, ... of a condition (set by vc.equality)
    aggregates = None
    in_aggregates = False

    def decide(self, cond):
        """Branch on a symbolic condition; returns a Python bool."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            val = e.cur == 0
            if not e.forced:
                self.assume(c if val else z3.Not(c))
                self.decisions.append(c if val else z3.simplify(z3.Not(c)))
            return val
        t = self.feasible(c)
        f = self.feasible(z3.Not(c)) if t else True
        if t and f:
            self.trail.append(_Entry(2, 0, False))
            self.pos += 1
            self.assume(c)
            self.decisions.append(c)
            return True
        if not t and not self.feasible(z3.Not(c)):
            raise PathEnd()
        self.trail.append(_Entry(1, 0 if t else 1, True))
        self.pos += 1
        return t

    def valid(self, cond, timeout=None, extra=()):
        """True if cond follows from the path facts (quick internal query)."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not extra:
            return False
        return self._query(c, extra, timeout or 3000)[0] == "proved"

    def _query(self, c, extra=(), timeout=None):
        neg = z3.Not(c)
        t0 = time.time()
        # first the incremental solver of the path
        self._add_axioms(list(extra) + [neg])
        self.solver.push()
        for t in extra:
            self.solver.add(t)
        self.solver.add(neg)
        self.solver.set("timeout", 700)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r != z3.unknown:
            dt = time.time() - t0
            self.solver_secs += dt
            self.queries += 1
            return ("proved" if r == z3.unsat else "refuted", model, dt)
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        ts = list(self.facts) + list(extra) + [neg]
        for t in ts:
            s.add(t)
        for a in all_axioms(ts):
            s.add(a)
        r = s.check()
        model = None
        if r == z3.sat:
            model = s.model()
        if r == z3.unknown:
            # second strategy: polynomial identity modulo the facts / nlsat
            for tac in ("qfnra-nlsat", "smt"):
                try:
                    g = z3.Then("simplify", "solve-eqs", tac).solver()
                    g.set("timeout", timeout or self.timeout_ms)
                    for t in ts:
                        g.add(t)
                    for a in all_axioms(ts):
                        g.add(a)
                    r2 = g.check()
                    if r2 == z3.unsat:
                        r = r2
                        break
                    if r2 == z3.sat:
                        r = r2
                        model = g.model()
                        break
                except z3.Z3Exception:
                    continue
        dt = time.time() - t0
        self.solver_secs += dt
        self.queries += 1
        return ("proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", model, dt)

    def in_learning(self):
        return any(l.learning for l in self.loops)

    def prove(self, name, cond, extra=(), abstract=False, detail=""):
        """Record an obligation."""
        if self.in_learning():
            return True
        path = "".join(str(e.cur) for e in self.trail[: self.pos])
        if isinstance(cond, bool):
            if cond:
                self.obligations.append(Obligation(name, "proved", path, detail, 0.0, "structural"))
                return True
            # a structural mismatch counts only if the path is feasible
            st = self._check(self.facts)
            if st == z3.unsat:
                self.obligations.append(Obligation(name, "proved", path, "infeasible path", 0.0, "z3"))
                return True
            self.obligations.append(Obligation(name, "refuted", path, detail or "structural mismatch", 0.0, "structural", model=None if st != z3.sat else self._model(), abstract=abstract))
            return False
        c = z3.simplify(cond, som=True)
        if z3.is_true(c):
            self.obligations.append(Obligation(name, "proved", path, detail, 0.0, "z3-simplify"))
            return True
        st, model, dt = self._query(c, extra)
        ob = Obligation(name, st, path, detail or str(c)[:400], dt, "z3", model, abstract)
        if st != "proved":
            ob.apps = tuple(sorted({a.decl().name() for a in collect_apps(list(self.facts) + list(extra) + [c])}))
        self.obligations.append(ob)
        return st == "proved"

    def prove_identity(self, name, how="rational-identity"):
        """an obligation discharged as an identity of rational functions (or otherwise, as said)"""
        path = "".join(str(e.cur) for e in self.trail[: self.pos])
        self.obligations.append(Obligation(name, "proved", path, "", 0.0, how))
        return True

    def _model(self):
        s = z3.Solver()
        s.set("timeout", 3000)
        for t in self.facts:
            s.add(t)
        for a in all_axioms(self.facts):
            s.add(a)
        return s.model() if s.check() == z3.sat else None

    def cover(self, name):
        """Vacuity guard: the current path must be satisfiable for at least one path."""
        if self.in_learning():
            return
        if self.covers.get(name):
            return
        r = self._check(self.facts)
        self.covers[name] = self.covers.get(name, False) or (r != z3.unsat)


def E():
    return Engine.cur
