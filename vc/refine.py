"""Refinement loops: `while i < len(a): ... a.insert(i, x); b.insert(i, y) ... else i += 1`.

Lists a, b, ... of the same length are refined between their ends: every iteration either inserts
one element at the counter into each of them, or advances the counter by one.  The invariant is
  len >= initial length, initial counter <= i <= len, the first elements (below the initial
  counter) and the last one are kept,
  b[k] = T(a[k]) for every k, T being the term found for the inserted element,
  a strictly increasing (if it starts so and the inserted element lies between its neighbours),
  other scalars of the body keep their sign,
  what the body found when it advanced holds for every pair passed so far.
Each clause is checked on the initial lists and on every path of the body; a clause that is not
inductive is dropped and the rest checked again.  Termination is assumed (partial correctness).
"""
import ast
import fractions
import numpy
import z3
from . import core
from . import values as V
from .core import E, Unsupported, PathEnd, Restart, I, R
from .values import *

X = z3.Real("refine!x")


class Refinement(object):
    """what is known of a finished loop: parameters a and the lists that depend on them"""

    def __init__(self, params, lists):
        self.params, self.lists = params, lists


class _Info(object):
    def __init__(self, no):
        self.no = no
        self.T = None
        self.paths = []
        self.ordered = True
        self.unsigned = set()
        self.failed = None


class RefList(VList):
    """list under refinement while an arbitrary iteration is explored"""

    def __init__(self, nodes):
        VList.__init__(self, nodes=nodes)
        self.inserted = []

    def insert(self, i, x):
        if self.inserted:
            raise Unsupported("two insertions in one refinement step")
        self.inserted.append((i, x))

    def _no(self, *a, **k):
        raise Unsupported("refined list changed otherwise")
    append = extend = pop = remove = clear = reverse = sort = __setitem__ = __delitem__ = __iadd__ = _no

    def __getitem__(self, k):
        if self.inserted:
            raise Unsupported("refined list read after an insertion")
        return VList.__getitem__(self, k)

    def sym_len(self):
        n = VList.sym_len(self)
        return n + 1 if self.inserted else n

    def __len__(self):
        raise Unsupported("length of a refined list")


def inserted_names(s):
    out = []
    for st in s.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "insert":
                if not isinstance(n.func.value, ast.Name):
                    return None
                if n.func.value.id not in out:
                    out.append(n.func.value.id)
    return out or None


def scalar(v):
    return isinstance(v, (int, float, SNum, numpy.floating, numpy.integer)) and not isinstance(v, bool)


def flat(v):
    """real terms of an element and a function building an element of the same shape"""
    if scalar(v):
        return [to_real(lift(v))], lambda ts: SNum(ts[0])
    if isinstance(v, numpy.ndarray) and v.ndim == 1:
        def mk(ts):
            out = numpy.empty(len(ts), dtype=object)
            for k, t in enumerate(ts):
                out[k] = SNum(t)
            return out
        if all(scalar(x) for x in v):
            return [to_real(lift(x)) for x in v], mk
    if isinstance(v, tuple) and v and all(scalar(x) for x in v):
        return [to_real(lift(x)) for x in v], lambda ts: tuple(SNum(t) for t in ts)
    raise Unsupported("refined element of an unknown kind")


def rounding(t):
    """polynomial whose coefficients are all rounding errors of constants such as 1 - 0.8"""
    for m in (t.children() if z3.is_add(t) else [t]):
        c = m if z3.is_rational_value(m) else m.arg(0) if z3.is_mul(m) and z3.is_rational_value(m.arg(0)) else None
        if c is None or abs(c.as_fraction()) > fractions.Fraction(1, 10 ** 12):
            return False
    return True


def assigned(s):
    return list(dict.fromkeys(n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)))


def try_refine(interp, s, env):
    """None if the loop is no refinement; (signal,) when it was summarised"""
    names = inserted_names(s)
    if names is None or not all(isinstance(env.vars.get(n), VList) for n in names):
        return None
    e = E()
    cs = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and n.id in assigned(s) and n.id not in names]
    cs = list(dict.fromkeys(cs))
    if len(cs) != 1 or not isinstance(env.vars.get(cs[0]), int):
        return None
    v = cs[0]
    lists = [env.vars[n] for n in names]
    init = [l.concrete() for l in lists]
    if any(x is None or len(x) < 2 for x in init) or len({len(x) for x in init}) != 1:
        return None
    i0, n0 = env.vars[v], len(init[0])
    if not 1 <= i0 < n0:
        return None
    params = [k for k, x in enumerate(init) if scalar(x[0])]
    if len(params) != 1 or any(l is m for a, l in enumerate(lists) for m in lists[:a]):
        return None
    kp = params[0]
    key = (("refine", id(s), interp.depth), e.prefix_key(), None)
    info = e.table.get(key)
    if info is None:
        info = e.table[key] = _Info(len(e.table))
    if info.failed:
        raise Unsupported(info.failed)
    info.pos = e.pos
    if key not in e.loop_runs:
        e.loop_runs[key] = True
        info.paths = []
    st = State(interp, s, env, info, names, v, init, i0, n0, kp)
    if e.choose(2) == 0:
        st.learn(key)
        raise PathEnd()
    st.summary()
    return (interp.block(s.orelse, env),)


class State(object):
    def __init__(self, interp, s, env, info, names, v, init, i0, n0, kp):
        self.interp, self.s, self.env, self.info = interp, s, env, info
        self.names, self.v, self.init, self.i0, self.n0, self.kp = names, v, init, i0, n0, kp
        self.flats = [[flat(x)[0] for x in l] for l in init]
        self.mks = [flat(l[0])[1] for l in init]
        if any(len({len(t) for t in f}) != 1 for f in self.flats):
            raise Unsupported("refined elements of different shapes")
        e = E()
        self.args = e.index_args()
        par = [t[0] for t in self.flats[kp]]
        self.increasing = all(e.valid(a < b) for a, b in zip(par, par[1:]))
        self.others = [n for n in assigned(s) if n != v and n in env.vars and n not in names and scalar(env.vars[n])]
        self.spoiled = [n for n in assigned(s) if n != v and n in env.vars and n not in names and not scalar(env.vars[n])]
        self.positive = {n: to_real(lift(env.vars[n])) for n in self.others if n not in info.unsigned and e.valid(to_real(lift(env.vars[n])) > 0)}

    def again(self):
        raise Restart(self.info.pos)

    def fun(self, name, tag):
        return z3.Function("%s!%s" % (name, tag), *([a.sort() for a in self.args] + [I, R]))

    def symbols(self, tag):
        """arbitrary lists satisfying the invariant"""
        e = E()
        self.m = e.fresh("len", I)
        self.J = e.fresh("pos", I)
        self.U = self.fun("param", tag)
        self.u = lambda t: self.U(*(self.args + [t]))
        self.opaque = {}
        out = []
        iv = V.fresh_index()
        for k, mk in enumerate(self.mks):
            if k == self.kp:
                ts = [self.u(iv)]
            elif self.info.T is not None:
                ts = [z3.substitute(t, (X, self.u(iv))) for t in self.info.T[k]]
            else:
                ts = []
                for c in range(len(self.flats[k][0])):
                    f = self.fun("value%d.%d" % (k, c), tag)
                    ts.append(f(*(self.args + [iv])))
            out.append([Loop(iv, self.m, [It(mk(ts))], e.uid_counter)])
        return out

    def scalars(self, env):
        e = E()
        new = {}
        for n in self.others:
            t = e.fresh("scalar", R)
            if n in self.positive:
                e.assume(t > 0)
            new[n] = SNum(t)
        return new

    def ends(self):
        e = E()
        u = self.u
        par = [t[0] for t in self.flats[self.kp]]
        e.assume(self.m >= self.n0)
        e.assume(self.J >= self.i0)
        e.assume(self.J <= self.m)
        for k in range(self.i0):
            e.assume(u(z3.IntVal(k)) == par[k])
        e.assume(u(self.m - 1) == par[-1])

    # ---------------------------------------------------------------- an arbitrary iteration
    def learn(self, key):
        from .loops import LoopInfo, LoopCtx
        e = E()
        info, env, v = self.info, self.env, self.v
        nodes = self.symbols("L%d" % info.no)
        self.ends()
        refs = []
        for n, ns in zip(self.names, nodes):
            r = RefList(ns)
            env.vars[n] = r
            refs.append(r)
        env.vars[v] = SNum(self.J)
        for n, t in self.scalars(env).items():
            env.vars[n] = t
        for n in self.spoiled:
            env.vars[n] = V.Poison("changed by the loop")
        u, J, m = self.u, self.J, self.m
        ctx = LoopCtx(key, LoopInfo(None), m, True)
        e.loops.append(ctx)
        try:
            g = V.zbool(self.interp.ev(self.s.test, env))
            e.assume(g)
            if not e.valid(J < m):
                raise Unsupported("refinement loop that is not bounded by its list")
            if self.increasing and info.ordered:
                e.assume(u(J - 1) < u(J))
                e.assume(z3.And(u(z3.IntVal(0)) <= u(J - 1), u(J) <= u(m - 1)))
            start = len(e.decisions)
            sig = self.interp.block(self.s.body, env)
        finally:
            if e.loops and e.loops[-1] is ctx:
                e.loops.pop()
        if sig not in (None, "continue"):
            raise Unsupported("refinement loop left early")
        if ctx.deltas or ctx.points:
            raise Unsupported("refinement loop with other effects")
        names = set(assigned(self.s))
        for (uid, name) in ctx.writes:
            if e.objs.get(uid) is not env or name not in names:
                raise Unsupported("refinement loop with other effects")
        conds = list(e.decisions[start:])
        now = lift(env.vars[v]) if scalar(env.vars[v]) else None
        if now is None or any(env.vars[n] is not r for n, r in zip(self.names, refs)):
            raise Unsupported("refinement loop with other effects")
        for n in list(self.positive):
            x = env.vars.get(n)
            if not scalar(x) or not e.valid(to_real(lift(x)) > 0):
                info.unsigned.add(n)
                self.again()
        done = [len(r.inserted) for r in refs]
        if not any(done):
            if not e.valid(now == J + 1):
                raise Unsupported("refinement step that neither inserts nor advances")
            info.paths.append({"at": e.prefix_key(), "conds": conds, "J": J, "m": m, "U": self.U})
            return
        if not all(d == 1 for d in done) or not e.valid(now == J):
            raise Unsupported("insertions of different lengths")
        for r in refs:
            if not e.valid(lift(r.inserted[0][0]) == J):
                raise Unsupported("insertion elsewhere than at the counter")
        x = flat(refs[self.kp].inserted[0][1])[0][0]
        if self.increasing and info.ordered and not e.valid(z3.And(u(J - 1) < x, x < u(J))):
            info.ordered = False
            self.again()
        T = {}
        for k, r in enumerate(refs):
            if k == self.kp:
                continue
            ts = flat(r.inserted[0][1])[0]
            if len(ts) != len(self.flats[k][0]):
                raise Unsupported("refined elements of different shapes")
            T[k] = [z3.substitute(t, (x, X)) for t in ts]
            for t in T[k]:
                for a in core.collect_apps([t]):
                    if a.decl().eq(self.U) or a.decl().name().startswith("value") or a.eq(J) or a.eq(m):
                        raise Unsupported("inserted element is no function of its parameter")
        if info.T is None:
            from . import ratform
            for k in T:
                for j in range(self.n0):
                    for t, w in zip(T[k], self.flats[k][j]):
                        g = z3.substitute(t, (X, self.flats[self.kp][j][0]))
                        if not (rounding(z3.simplify(g - w, som=True)) or e.valid(g == w)):
                            raise Unsupported("initial elements are no function of their parameter: %s" % z3.simplify(g - w, som=True))
            info.T = T
            self.again()
        for k in T:
            for t, w in zip(T[k], info.T[k]):
                if not (z3.simplify(t - w, som=True).eq(z3.RealVal(0)) or e.valid(t == w)):
                    raise Unsupported("inserted element depends on the iteration")

    # ---------------------------------------------------------------- after the loop
    def summary(self):
        e = E()
        info, env, v = self.info, self.env, self.v
        if info.T is None:
            raise Unsupported("refinement loop that never refines")
        tag = "S%d%s" % (info.no, e.fresh_name("r"))
        nodes = self.symbols(tag)
        u, J, m = self.u, self.J, self.m
        ordered = self.increasing and info.ordered
        first, last = self.flats[self.kp][0][0], self.flats[self.kp][-1][0]
        passed = info.paths
        derived = set()
        nargs = len(self.args)
        outer = self.args

        def hook(app):
            t = app.arg(nargs)
            sub = list(zip(outer, app.children()[:nargs]))
            out = []

            def at(x):
                a = self.U(*(app.children()[:nargs] + [z3.simplify(x)]))
                return a

            def fix(f):
                return z3.substitute(f, *sub) if sub else f
            mm, JJ = fix(m), fix(J)
            if ordered:
                out.append(z3.Implies(z3.And(t >= 0, t < mm), z3.And(fix(first) <= app, app <= fix(last))))
            if app.get_id() in derived:
                return out
            for lo in (t - 1, t):
                a, b = at(lo), at(lo + 1)
                for o in (a, b):
                    if not o.eq(app):
                        derived.add(o.get_id())
                        e.keep.append(o)
                lo = z3.simplify(lo)
                if ordered:
                    out.append(z3.Implies(z3.And(lo >= 0, lo + 1 < mm), a < b))
                if passed:
                    alts = []
                    for p in passed:
                        c = z3.And(*p["conds"]) if p["conds"] else z3.BoolVal(True)
                        pu = p["U"]
                        pj = p["J"]
                        c = move(c, pu, pj, nargs, self.U, app.children()[:nargs], z3.simplify(lo + 1))
                        c = z3.substitute(c, (p["m"], mm))
                        alts.append(fix(c))
                    out.append(z3.Implies(z3.And(lo + 1 >= self.i0, lo + 1 < JJ), z3.Or(*alts)))
            return out
        core._axiom_hooks[self.U.name()] = hook
        self.ends()
        out = []
        for n, ns in zip(self.names, nodes):
            l = VList(nodes=ns)
            out.append(l)
            self.interp.store(env, n, l)
        self.interp.store(env, v, SNum(J))
        e.assume(z3.Not(V.zbool(self.interp.ev(self.s.test, env))))
        for n, t in self.scalars(env).items():
            self.interp.store(env, n, t)
        for n in self.spoiled:
            self.interp.store(env, n, V.Poison("changed by the loop"))
        e.ghost.setdefault("refinements", []).append(Refinement(VList(nodes=list(nodes[self.kp])), [VList(nodes=list(ns)) for ns in nodes]))


def move(c, pu, pj, nargs, U, outer, t):
    """the condition of an advancing iteration at counter pj over parameters pu, restated at t over U"""
    apps = [a for a in core.collect_apps([c]) if a.decl().eq(pu)]
    c = z3.substitute(c, *[(a, U(*(list(outer) + [z3.simplify(z3.substitute(a.arg(nargs), (pj, t)))]))) for a in apps])
    return z3.substitute(c, (pj, t))
