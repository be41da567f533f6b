"""Obligations that two values are equal: numbers, arrays, sequences (with symbolic segments), texts,
dictionaries (including grouped ones), sets, objects."""
import z3
import numpy
from . import core
from .core import E, Unsupported, PathEnd, I, R
from .values import *
from . import values as V
from . import models, ratform
from .interp import VTYPES, instance_attrs, IFunc


class Mode(object):
    """what counts as equal: same content (default), or identity for some classes"""
    identity = ()


def prove_eq(name, a, b, ident=()):
    e = E()
    if e.in_learning():
        return
    _eq(name, a, b, ident, 0, set())


def fail(name, why):
    e = E()
    e.prove(name, False, detail=why, abstract=True)
    raise PathEnd()


def is_seq(x):
    return isinstance(x, (VList, list, tuple, SArr, SArrT, numpy.ndarray, range)) and not (isinstance(x, numpy.ndarray) and x.ndim == 0)


def is_number(x):
    return isnum(x) or isinstance(x, SBool) or isinstance(x, numpy.ndarray) and x.ndim == 0


def _eq(name, a, b, ident, depth, seen):
    e = E()
    if a is b:
        e.prove(name, True)
        return
    if isinstance(a, numpy.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, numpy.ndarray) and b.ndim == 0:
        b = b.item()
    if a is None or b is None:
        return fail(name, "one side is None: %r / %r" % (type(a).__name__, type(b).__name__))
    if is_number(a) and is_number(b):
        return num_eq(name, a, b)
    if isinstance(a, (str, bytes, SText)) and isinstance(b, (str, bytes, SText)):
        return text_eq(name, a, b)
    if is_seq(a) and is_seq(b):
        return seq_eq(name, models.iter_nodes(a), models.iter_nodes(b), ident, depth + 1, seen)
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        return dict_eq(name, a, b, ident, depth + 1, seen)
    if isinstance(a, (SSet, set, frozenset)) and isinstance(b, (SSet, set, frozenset)):
        return set_eq(name, a, b, ident, depth + 1, seen)
    if type(a) is not type(b) or isinstance(a, (type, IFunc)):
        return fail(name, "values of types %s and %s" % (type(a).__name__, type(b).__name__))
    if hasattr(a, "_sym_eq"):
        return a._sym_eq(name, b)
    if isinstance(a, models.TypedNd):
        return _eq(name, a.a, b.a, ident, depth, seen)
    if ident and isinstance(a, ident):
        ia, ib = e.elem_of.get(id(a)), e.elem_of.get(id(b))
        if ia and ib and ia[1] is ib[1]:
            return num_eq(name, wrap(ia[2]), wrap(ib[2]))
        return fail(name, "different objects")
    key = (id(a), id(b))
    if key in seen:
        return
    seen.add(key)
    e.keep.append((a, b))
    aa, ab = instance_attrs(a), instance_attrs(b)
    if not aa and not ab:
        if type(a).__eq__ is not object.__eq__ and a == b:
            return e.prove(name, True)
        return fail(name, "different objects")
    if aa != ab:
        return fail(name, "different attributes")
    for n in aa:
        _eq(name + "." + n, getattr(a, n), getattr(b, n), ident, depth + 1, seen)


# ---------------------------------------------------------------- numbers and aggregates
def linear_parts(t):
    """(sign, term) summands of a real/int term"""
    if z3.is_add(t):
        out = []
        for c in t.children():
            out.extend(linear_parts(c))
        return out
    return [t]


def red_apps(t):
    return [a for a in core.collect_apps([t]) if a.decl().name() in V.RED]


def expand_sum(app, done):
    """sum of a linear combination -> combination of sums; returns an equal term"""
    kind, n, iv, body = V.red_instance(app)
    if kind != "sum":
        return app
    b = z3.simplify(body, som=True)
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        c, x, y = b.children()
        if (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
            # counts are in terms of the number of iterations where the condition itself holds
            if z3.is_not(c):
                c, x, y = c.children()[0], y, x
            one = z3.IntVal(1) if b.sort() == z3.IntSort() else z3.RealVal(1)
            zero = one - one
            if x.eq(one) and z3.simplify(y).eq(z3.simplify(zero)):
                return V.reduce_term("sum", iv, n, z3.If(c, one, z3.simplify(zero)))
            m = z3.If(n >= 0, n, z3.IntVal(0))
            m = m if b.sort() == z3.IntSort() else to_real(m)
            return y * m + (x - y) * V.reduce_term("sum", iv, n, z3.If(c, one, z3.simplify(zero)))
        if not any(v.get_id() == iv.get_id() for v in V.index_vars(c)):
            x = expand_sum_term(iv, n, b.children()[1])
            y = expand_sum_term(iv, n, b.children()[2])
            return z3.If(c, x, y)
    return expand_sum_term(iv, n, b)


def expand_sum_term(iv, n, b):
    b = z3.simplify(b, som=True)
    parts = linear_parts(b)
    tot = None
    for p in parts:
        coef, rest = split_coef(p, iv)
        s = V.reduce_term("sum", iv, n, rest)
        x = s if coef is None else (coef * s if coef.sort() == s.sort() else to_real(coef) * to_real(s))
        tot = x if tot is None else (tot + x if tot.sort() == x.sort() else to_real(tot) + to_real(x))
    return tot


def has_iv(t, iv):
    return any(v.get_id() == iv.get_id() for v in V.index_vars(t))


def split_coef(p, iv):
    """p = coef * rest with coef free of iv"""
    if z3.is_mul(p):
        fs = mul_factors(p)
        free = [f for f in fs if not has_iv(f, iv)]
        dep = [f for f in fs if has_iv(f, iv)]
        if free and dep:
            c = free[0]
            for f in free[1:]:
                c = c * f
            r = dep[0]
            for f in dep[1:]:
                r = r * f
            return c, r
    if z3.is_app_of(p, z3.Z3_OP_UMINUS):
        c, r = split_coef(p.children()[0], iv)
        one = z3.RealVal(-1) if p.sort() == R else z3.IntVal(-1)
        return (one if c is None else -c), r
    if z3.is_app_of(p, z3.Z3_OP_TO_REAL):
        return None, p
    if not has_iv(p, iv):
        return p, (z3.RealVal(1) if p.sort() == R else z3.IntVal(1))
    return None, p


def mul_factors(p):
    if z3.is_mul(p):
        out = []
        for c in p.children():
            out.extend(mul_factors(c))
        return out
    return [p]


def aggregate_facts(ts, depth=0):
    """equalities between aggregate applications that hold because their bodies agree, and
    instances of min/max at the index constants in play"""
    e = E()
    apps = []
    for t in ts:
        for a in red_apps(t):
            if all(a.get_id() != b.get_id() for b in apps):
                apps.append(a)
    facts = []
    more = []
    for a in apps:
        x = expand_sum(a, set())
        if x is not a and not x.eq(a):
            facts.append(a == x)
            for y in red_apps(x):
                if all(y.get_id() != b.get_id() for b in apps + more):
                    more.append(y)
    apps = apps + more
    rep = []
    for a in apps:
        ka, na, iva, ba = V.red_instance(a)
        for b in rep:
            kb, nb, ivb, bb = V.red_instance(b)
            if ka != kb or ba.sort() != bb.sort():
                continue
            if not e.valid(na == nb):
                continue
            bb2 = z3.substitute(bb, (ivb, iva))
            rng = (iva >= 0, iva < na)
            d = z3.simplify(ba == bb2, som=True)
            ok = z3.is_true(d)
            if not ok and depth < 3:
                inner = aggregate_facts([ba, bb2], depth + 1) if red_apps(ba) or red_apps(bb2) else []
                ok = e.valid(ba == bb2, extra=rng + tuple(inner), timeout=2000)
            if ok:
                facts.append(a == b)
                break
        else:
            rep.append(a)
    # bounds
    idx = []
    for t in list(ts) + e.facts:
        for v in V.index_vars(t):
            if all(v.get_id() != w.get_id() for w in idx):
                idx.append(v)
    idx = (idx if len(idx) <= 8 else idx[:4] + idx[-4:]) + [z3.IntVal(0)]
    todo, done = list(apps), []
    for _ in range(3):
        # witnesses of the sums and existences are further indices of interest
        extra = [z3.Int("%s!%d" % (WITNESS[V.red_instance(a)[0]], a.get_id())) for a in todo if V.red_instance(a)[0] in WITNESS]
        extra = [x for x in extra if len(idx) < 14 and not idx.append(x)]
        new = []
        for a in todo:
            new += aggregate_bounds(a, apps, idx)
        for a in done if extra else ():
            new += aggregate_bounds(a, apps, extra)
        facts += new
        done += todo
        todo = []
        for f in new:
            for y in red_apps(f):
                if all(y.get_id() != x.get_id() for x in done + todo) and len(todo) < 40:
                    todo.append(y)
        if not todo:
            break
    return facts


def row_stride(n):
    """c in a number of rows c*m"""
    if z3.is_mul(n) and n.num_args() == 2 and z3.is_int_value(n.arg(0)) and 1 < n.arg(0).as_long() < 5:
        return n.arg(0).as_long()
    return 1


def partial(kind, body):
    if kind in ("min", "max") and z3.is_app_of(body, z3.Z3_OP_ITE):
        for t, v, g in ((2, 1, body.arg(0)), (1, 2, z3.Not(body.arg(0)))):
            if z3.is_const(body.arg(t)) and body.arg(t).decl().name() == "top!" + kind:
                return g, body.arg(v), body.arg(t)
    return None


WITNESS = {"sum": "pos", "exists": "wit"}


def aggregate_bounds(a, apps, idx):
    """instances of the definition of one minimum, maximum or existence"""
    facts = []
    kind, n, iv, body = V.red_instance(a)
    c = row_stride(n)
    if c > 1:
        # rows of arrays of c rows each: row c v + j is row j of array v
        idx = idx + [c * v + j for v in idx for j in range(c)]
    part = partial(kind, body)
    if part is not None:
        # some parts are missing: minimum over those with the guard
        g, val, top = part
        for v in idx:
            inst = z3.substitute(val, (iv, v))
            facts.append(z3.Implies(z3.And(v >= 0, v < n, z3.substitute(g, (iv, v))), a <= inst if kind == "min" else a >= inst))
        k = z3.Int("arg!%d" % a.get_id())
        facts.append(z3.Or(z3.And(k >= 0, k < n, z3.substitute(g, (iv, k)), a == z3.substitute(val, (iv, k))), z3.And(a == top, *[z3.Implies(z3.And(v >= 0, v < n), z3.Not(z3.substitute(g, (iv, v)))) for v in idx])))
        return facts
    if kind in ("min", "max"):
        for v in idx:
            inst = z3.substitute(body, (iv, v))
            facts.append(z3.Implies(z3.And(v >= 0, v < n), a <= inst if kind == "min" else a >= inst))
        k = z3.Int("arg!%d" % a.get_id())
        wit = z3.substitute(body, (iv, k))
        facts.append(z3.Implies(n > 0, z3.And(k >= 0, k < n, a == wit)))
        for other in apps:
            if other is not a:
                ko, no, ivo, bo = V.red_instance(other)
                if ko == kind:
                    d = row_stride(no)
                    for w in [k] if c == d else [k / c] if d == 1 else [d * k + j for j in range(d)]:
                        inst = z3.substitute(bo, (ivo, w))
                        facts.append(z3.Implies(z3.And(w >= 0, w < no), other <= inst if kind == "min" else other >= inst))
    if kind == "sum" and body.sort() == I and nonnegative(body):
        k = z3.Int("pos!%d" % a.get_id())
        facts.append(a >= 0)
        facts.append(z3.Implies(a > 0, z3.And(k >= 0, k < n, z3.substitute(body, (iv, k)) > 0)))
        for v in idx:
            facts.append(z3.Implies(z3.And(v >= 0, v < n), a >= z3.substitute(body, (iv, v))))
    if kind == "exists":
        k = z3.Int("wit!%d" % a.get_id())
        facts.append(z3.Or(a == 0, a == 1))
        facts.append(z3.Implies(a == 1, z3.And(k >= 0, k < n, z3.substitute(body, (iv, k)) == 1)))
        for v in idx:
            facts.append(z3.Implies(z3.And(v >= 0, v < n, z3.substitute(body, (iv, v)) == 1), a == 1))
    return facts


def nonnegative(t):
    """a count: sum of lengths and of counts"""
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if t.decl().name() == "strlen":
        return True
    if t.decl().name() in V.RED:
        kind, n, iv, body = V.red_instance(t)
        return kind == "sum" and nonnegative(body)
    if z3.is_add(t) or z3.is_mul(t):
        return all(nonnegative(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return nonnegative(t.arg(1)) and nonnegative(t.arg(2))
    return E().valid(t >= 0)


def decision_facts(cond):
    """what the definitions of the aggregates in a condition say about it"""
    if not red_apps(cond):
        return []
    rel = [f for f in E().facts if z3.is_expr(f) and red_apps(f)]
    return aggregate_facts([cond] + rel[-6:])


core.Engine.aggregates = staticmethod(decision_facts)


def num_eq(name, a, b):
    e = E()
    if isinstance(a, (SBool, bool, numpy.bool_)) and isinstance(b, (SBool, bool, numpy.bool_)):
        return prove_cond(name, zbool(a) == zbool(b))
    x, y = lift(a), lift(b)
    if x.sort() != y.sort():
        x, y = to_real(x), to_real(y)
    prove_cond(name, x == y)


def has_quotient(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
            return True
        stack.extend(x.children())
    return False


NONLINEAR = {}


def unsat_nonlinear(cs):
    """no real values satisfy the polynomial constraints (answers are kept, up to the names of the variables)"""
    order, seen, stack = [], set(), list(cs)[::-1]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            order.append(x)
        stack.extend(x.children()[::-1])
    cs = list(dict.fromkeys(z3.substitute(c, *[(x, z3.Real("v%d" % k)) for k, x in enumerate(order)]).sexpr() for c in cs))
    key = "\n".join(cs)
    if key not in NONLINEAR:
        text = "".join("(declare-const v%d Real)" % k for k in range(len(order))) + "".join("(assert %s)" % c for c in cs)
        for tactic in ("qfnra-nlsat", "smt"):
            s = z3.Tactic(tactic).solver()
            s.set("timeout", 3000)
            s.from_string(text)
            r = s.check()
            if r != z3.unknown:
                break
        NONLINEAR[key] = r == z3.unsat
    return NONLINEAR[key]


def has_product(t):
    if z3.is_mul(t) and sum(not z3.is_rational_value(x) for x in t.children()) > 1 or z3.is_div(t) and not z3.is_rational_value(t.arg(1)):
        return True
    return not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) and any(has_product(x) for x in t.children())


def monomial(t):
    """coefficient and variables of a product, or None"""
    if z3.is_rational_value(t):
        return t.as_fraction(), []
    if z3.is_mul(t):
        co, vs = 1, []
        for x in t.children():
            m = monomial(x)
            if m is None:
                return None
            co, vs = co * m[0], vs + m[1]
        return co, vs
    if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1:
        m = monomial(t.arg(0))
        return None if m is None or m[0] != 1 else (1, m[1] * int(t.arg(1).as_fraction()))
    if z3.is_const(t):
        return 1, [t]
    return None


def without_common(t, facts):
    """the sum of products without the positive variables common to all products"""
    ms = [monomial(x) for x in (t.children() if z3.is_add(t) else [t])]
    if any(m is None for m in ms):
        return None
    plus = {f.arg(0).get_id() for f in facts if f.decl().kind() == z3.Z3_OP_GT and z3.is_rational_value(f.arg(1)) and f.arg(1).as_fraction() == 0}
    found = False
    for v in list(ms[0][1]):
        if v.get_id() in plus and all(any(x.eq(v) for x in m[1]) for m in ms):
            found = True
            for m in ms:
                m[1].pop(next(i for i, x in enumerate(m[1]) if x.eq(v)))
    if not found:
        return None
    return z3.Sum(*[z3.Product(z3.RealVal(co), *vs) if vs else z3.RealVal(co) for co, vs in ms])


class Positive(object):
    """decides that a term is positive from the signs of its quotients and roots: every quotient and function value is
    replaced by a variable of the sign proved for it, and the polynomial that remains is left to the nonlinear solver"""

    last = (None, None)

    def __init__(self, e):
        self.e, self.memo, self.angles, self.numbers, self.known = e, {}, [], {}, {}

    @classmethod
    def of(cls, e):
        """the one of the present path (its facts only grow: what was proved stays true)"""
        if cls.last[0] is not e.facts:
            cls.last = (e.facts, cls(e))
        return cls.last[1]

    def angle(self, t):
        """number of the angle t among those seen (equal angles share one)"""
        t = z3.simplify(t, som=True)
        if t.get_id() not in self.numbers:
            for k, a in enumerate(self.angles):
                if a.eq(t) or self.linear(a == t):
                    break
            else:
                k = len(self.angles)
                self.angles.append(t)
            self.numbers[t.get_id()] = (t, k)
        return self.numbers[t.get_id()][1]

    def linear(self, c):
        """c follows from the equations of the path between sums"""
        s = z3.Solver()
        s.set("timeout", 1000)
        for f in self.e.facts:
            if z3.is_expr(f) and z3.is_eq(f) and f.arg(0).sort() == R:
                f = z3.simplify(f)
                if not has_product(f):
                    s.add(f)
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    def same_angles(self, t):
        """the term with one form of each angle"""
        pairs, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and (x.decl().eq(core.F_cos) or x.decl().eq(core.F_sin)):
                a = self.angles[self.angle(x.arg(0))]
                if not a.eq(x.arg(0)):
                    pairs.append((x, x.decl()(a)))
            stack.extend(x.children())
        return z3.substitute(t, *pairs) if pairs else t

    def positive(self, t):
        if t.get_id() not in self.known:
            self.known[t.get_id()] = (t, self.e.valid(t > 0))
        return self.known[t.get_id()][1]

    def abstract(self, t, facts, used):
        if t.get_id() in used:
            return used[t.get_id()][1]
        k = t.decl().kind()
        if z3.is_to_real(t) and z3.is_rational_value(z3.simplify(t)):
            r = z3.simplify(t)
        elif z3.is_rational_value(t) or z3.is_int_value(t):
            r = t
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = t.decl()(*[self.abstract(x, facts, used) for x in t.children()]) if k in (z3.Z3_OP_UMINUS,) else None
            if r is None:
                xs = [self.abstract(x, facts, used) for x in t.children()]
                r = xs[0]
                for x in xs[1:]:
                    r = r + x if k == z3.Z3_OP_ADD else r * x if k == z3.Z3_OP_MUL else r - x
        elif z3.is_div(t) and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() != 0:
            r = self.abstract(t.arg(0), facts, used) / t.arg(1)
        elif t.decl().eq(core.F_cos) or t.decl().eq(core.F_sin):
            n = self.angle(t.arg(0))
            cs, sn = z3.Real("pos!cos%d" % n), z3.Real("pos!sin%d" % n)
            facts.append(cs * cs + sn * sn == 1)
            r = cs if t.decl().eq(core.F_cos) else sn
        else:
            r = z3.Real("pos!%d" % t.get_id())
            if z3.is_div(t):
                if self.term(t.arg(1)):
                    facts.append(r > 0)
                if not self.term(t.arg(0)):  # else r stands for the whole quotient
                    r = self.abstract(t.arg(0), facts, used) * r
            elif t.decl().eq(core.F_sqrt):
                facts.append(r > 0 if self.positive(t.arg(0)) else r >= 0)
            elif self.positive(t):
                facts.append(r > 0)
        used[t.get_id()] = (t, r)
        return r

    def term(self, t):
        if t.get_id() not in self.memo:
            facts, used = [], {}
            g = self.abstract(t, facts, used)
            ok = False
            n = z3.simplify(g, som=True)
            if z3.is_rational_value(n):
                ok = n.as_fraction() > 0
            else:
                h = without_common(n, facts)
                ok = h is not None and unsat_nonlinear(facts + [h <= 0]) or unsat_nonlinear(facts + [g <= 0]) or unsat_nonlinear(facts + self.numeric(used) + [g <= 0])
            self.memo[t.get_id()] = (t, ok)
        return self.memo[t.get_id()][1]

    def numeric(self, used):
        """facts of the path about the plain variables of the term, and the nonzero denominators assumed"""
        out = []
        pairs = [(t, r) for t, r in used.values() if not z3.is_rational_value(t)]
        for f in self.e.facts:
            if z3.is_expr(f) and z3.is_app(f) and (f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or z3.is_not(f) and z3.is_eq(f.arg(0)) or z3.is_distinct(f)):
                x = f.arg(0) if z3.is_not(f) else f
                if not all(y.sort() == R for y in x.children()):
                    continue
                fs, us = [], dict(used)
                try:
                    ys = [self.abstract(y, fs, us) for y in x.children()]
                except z3.Z3Exception:
                    continue
                if len(us) > len(used) + 6:
                    continue
                g = x.decl()(*ys)
                out.extend(fs)
                out.append(z3.Not(g) if z3.is_not(f) else g)
        return out


def prove_cond(name, c):
    e = E()
    if e.in_learning():
        return
    if not z3.is_expr(c):
        return e.prove(name, bool(c))
    s = z3.simplify(c, som=True)
    if z3.is_true(s):
        return e.prove(name, s)
    if z3.is_eq(c) and c.arg(0).sort() in (R, I):
        d = z3.simplify(c.arg(0) - c.arg(1), som=True)
        if (z3.is_rational_value(d) or z3.is_int_value(d)) and d.as_fraction() == 0 if z3.is_rational_value(d) else z3.is_int_value(d) and d.as_long() == 0:
            return e.prove(name, z3.BoolVal(True))
        if c.arg(0).sort() == R and not red_apps(c) and ratform.equal(c.arg(0), c.arg(1), e.valid):
            return e.prove_identity(name)
        if c.arg(0).sort() == R and not red_apps(c) and has_quotient(c):
            d = Positive.of(e).same_angles(c)
            if not d.eq(c) and ratform.equal(d.arg(0), d.arg(1), e.valid):
                return e.prove_identity(name)
    if c.decl().kind() in (z3.Z3_OP_GT, z3.Z3_OP_LT) and c.arg(0).sort() == R and not red_apps(c):
        a, b = [z3.simplify(x) if z3.is_to_real(x) else x for x in c.children()]
        if z3.is_rational_value(a) and a.as_fraction() == 0:
            a, b = b, a
            flip = c.decl().kind() == z3.Z3_OP_GT
        else:
            flip = c.decl().kind() == z3.Z3_OP_LT
        if not flip and z3.is_rational_value(b) and b.as_fraction() == 0 and has_quotient(a) and Positive.of(e).term(a):
            return e.prove_identity(name, "sign of products and quotients")
    extra = ()
    rel = [f for f in e.facts if z3.is_expr(f) and red_apps(f)]
    if red_apps(c) or rel:
        extra = tuple(aggregate_facts([c] + rel[-6:]))
    return e.prove(name, c, extra=extra)


# ---------------------------------------------------------------- sequences
def const_n(n):
    s = z3.simplify(n)
    return s.as_long() if z3.is_int_value(s) else None


def norm_head(ns):
    """first node is It or a Loop with symbolic count (Ifs decided, constant loops unrolled)"""
    ns = list(ns)
    while ns:
        h = ns[0]
        if isinstance(h, If):
            ns = list(h.a if E().decide(h.c) else h.b) + ns[1:]
        elif isinstance(h, Loop):
            k = const_n(h.n)
            if k is None:
                if not h.body:
                    ns = ns[1:]
                    continue
                return ns
            if k > 64:
                return ns
            out = []
            for j in range(max(0, k)):
                out.extend(h.subst([(h.ivar, z3.IntVal(j))]).nodes(h.body) if not any(isinstance(b, It) and hasattr(b.v, "at") for b in h.body) else [It(h.inst(i, z3.IntVal(j))) for i in range(len(h.body))])
            ns = out + ns[1:]
        else:
            return ns
    return ns


def body_at(h, j):
    out = []
    for k, b in enumerate(h.body):
        if isinstance(b, It):
            out.append(It(h.inst(k, j)))
        else:
            out.extend(h.subst([(h.ivar, j)]).nodes([b]))
    return out


def seq_eq(name, A, B, ident, depth, seen, item=None):
    e = E()
    if item is None:
        def item(nm, x, y):
            _eq(nm, x, y, ident, depth, seen)
    guard = 0
    pos = 0
    while True:
        guard += 1
        if guard > 400:
            raise Unsupported("sequence comparison too long")
        A, B = norm_head(A), norm_head(B)
        if not A and not B:
            e.prove(name + ".len", True)
            return
        if not A or not B:
            rest = A or B
            h = rest[0]
            if isinstance(h, Loop):
                if e.decide(h.n <= 0):
                    A, B = (A[1:], B) if A else (A, B[1:])
                    continue
                if any(isinstance(x, (Loop, If)) for x in h.body) and not any(isinstance(x, It) for x in h.body):
                    # equal only if every iteration is empty
                    if e.choose(2) == 0:
                        j = V.fresh_index("ix")
                        e.assume(z3.And(j >= 0, j < h.n))
                        rel = [f for f in e.facts if red_apps(f)]
                        for f in aggregate_facts(rel[-6:]) if rel else ():
                            e.assume(f)
                        x = body_at(h, j)
                        seq_eq(name + "[*]", x if A else [], [] if A else x, ident, depth, seen, item)
                        raise PathEnd()
                    A, B = (A[1:], B) if A else (A, B[1:])
                    continue
            return fail(name + ".len", "%s has more items than %s" % (("result", "expected") if A else ("expected", "result")))
        a, b = A[0], B[0]
        if isinstance(a, It) and isinstance(b, It):
            item("%s[%d]" % (name, pos), a.v, b.v)
            pos += 1
            A, B = A[1:], B[1:]
            continue
        if isinstance(a, Loop) and isinstance(b, Loop):
            same = e.valid(a.n == b.n)
            if not same and e.decide(a.n <= 0):
                A = A[1:]
                continue
            if not same and e.decide(b.n <= 0):
                B = B[1:]
                continue
            la, lb = static_len(a.body), static_len(b.body)
            if la is not None and lb is not None and la != lb:
                # align strides
                if lb % la == 0 and la:
                    A[0] = stride(a, lb // la)
                    continue
                if la % lb == 0 and lb:
                    B[0] = stride(b, la // lb)
                    continue
            if same or e.decide(a.n == b.n):
                pa, pb, m = a, b, a.n
                A, B = A[1:], B[1:]
            elif e.decide(a.n < b.n):
                m = a.n
                pa, pb = a, b
                iv = V.fresh_index()
                A = A[1:]
                B[0] = shifted(b, iv, b.n - m, iv + m)
            else:
                m = b.n
                pa, pb = a, b
                iv = V.fresh_index()
                B = B[1:]
                A[0] = shifted(a, iv, a.n - m, iv + m)
            if e.choose(2) == 0:
                j = V.fresh_index("ix")
                e.assume(z3.And(j >= 0, j < m))
                seq_eq(name + "[*]", body_at(pa, j), body_at(pb, j), ident, depth, seen, item)
                raise PathEnd()
            continue
        if isinstance(a, While) and isinstance(b, While):
            from . import whiles
            whiles.while_eq(name, a, b, item, ident, depth, seen)
            A, B = A[1:], B[1:]
            continue
        if isinstance(a, While) or isinstance(b, While):
            from . import whiles
            A, B = whiles.unroll_head(A, B)
            continue
        # item against loop: peel
        if isinstance(a, Loop):
            A = peel(A)
        else:
            B = peel(B)


def shifted(l, iv, n, idx):
    if any(isinstance(b, It) and hasattr(b.v, "at") for b in l.body):
        body = []
        for k, b in enumerate(l.body):
            if isinstance(b, It):
                body.append(It(l.subst([(l.ivar, idx)])(b.v)))
            else:
                body.extend(l.subst([(l.ivar, idx)]).nodes([b]))
        return Loop(iv, z3.simplify(n), body, l.outer, True)
    return l.shift(iv, z3.simplify(n), idx)


def static_len(ns):
    c = 0
    for n in ns:
        if isinstance(n, It):
            c += 1
        else:
            return None
    return c


def stride(l, k):
    """view a loop as groups of k iterations (count must be a multiple)"""
    e = E()
    if not e.valid(l.n % k == 0):
        raise Unsupported("loops with different strides")
    iv = V.fresh_index()
    body = []
    for c in range(k):
        body.extend(body_at(l, iv * k + c))
    return Loop(iv, z3.simplify(l.n / k), body, l.outer, True)


def peel(ns):
    e = E()
    l = ns[0]
    if not e.decide(l.n > 0):
        return ns[1:]
    iv = V.fresh_index()
    return body_at(l, z3.IntVal(0)) + [shifted(l, iv, l.n - 1, iv + 1)] + ns[1:]


# ---------------------------------------------------------------- text
def text_eq(name, a, b):
    e = E()
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return e.prove(name, a == b, detail="%r / %r" % (a[:80], b[:80])) or None
    ab = isinstance(a, bytes) or isinstance(a, SText) and a.isbytes
    bb = isinstance(b, bytes) or isinstance(b, SText) and b.isbytes
    if ab != bb:
        return fail(name, "text against bytes")
    A = models.merge_lits(models.text_nodes(a))
    B = models.merge_lits(models.text_nodes(b))
    atoms_eq(name, A, B)


def atoms_eq(name, A, B):
    e = E()
    guard = 0
    pos = 0
    while True:
        guard += 1
        if guard > 600:
            raise Unsupported("text comparison too long")
        A, B = norm_head(A), norm_head(B)
        A = drop_empty(A)
        B = drop_empty(B)
        if not A and not B:
            e.prove(name + ".len", True)
            return
        if not A or not B:
            rest = A or B
            h = rest[0]
            if isinstance(h, Loop) and e.decide(h.n <= 0):
                A, B = (A[1:], B) if A else (A, B[1:])
                continue
            if isinstance(h, It) and h.v.kind == "str" and e.decide(core.F_strlen(h.v.a) == 0):
                A, B = (A[1:], B) if A else (A, B[1:])
                continue
            return fail(name + ".len", "%s is longer: %r" % ("result" if A else "expected", rest[:2]))
        a, b = A[0], B[0]
        if isinstance(a, It) and isinstance(b, It):
            x, y = a.v, b.v
            nm = "%s@%d" % (name, pos)
            pos += 1
            if x.kind == "lit" and y.kind == "lit":
                k = min(len(x.a), len(y.a))
                if x.a[:k] != y.a[:k]:
                    return fail(nm, "bytes %r instead of %r" % (x.a[:k], y.a[:k]))
                e.prove(nm, True)
                A = ([It(Atom("lit", x.a[k:]))] if len(x.a) > k else []) + A[1:]
                B = ([It(Atom("lit", y.a[k:]))] if len(y.a) > k else []) + B[1:]
                continue
            if x.kind == "F" and y.kind == "F":
                if x.a == y.a:
                    prove_field(nm, x.b, y.b, x.a)
                    A, B = A[1:], B[1:]
                    continue
                k = min(x.a, y.a)
                hx, hy = (V.split_field(v.b, v.a, k)[0] if v.a > k else v.b for v in (x, y))
                prove_field(nm, hx, hy, k)
                A = ([It(Atom("F", x.a - k, x.b))] if x.a > k else []) + A[1:]
                B = ([It(Atom("F", y.a - k, y.b))] if y.a > k else []) + B[1:]
                continue
            if x.kind == "F" and y.kind == "lit" or x.kind == "lit" and y.kind == "F":
                f, l = (x, y) if x.kind == "F" else (y, x)
                if len(l.a) < f.a:
                    k = len(l.a)
                    prove_field(nm, V.split_field(f.b, f.a, k)[0], z3.IntVal(int.from_bytes(l.a, "big")), k)
                    rest = [It(Atom("F", f.a - k, f.b))]
                    if x.kind == "F":
                        A, B = rest + A[1:], B[1:]
                    else:
                        A, B = A[1:], rest + B[1:]
                    continue
                v = int.from_bytes(l.a[: f.a], "big")
                prove_field(nm, f.b, z3.IntVal(v), f.a)
                rest = [It(Atom("lit", l.a[f.a:]))] if len(l.a) > f.a else []
                if x.kind == "F":
                    A, B = A[1:], rest + B[1:]
                else:
                    A, B = rest + A[1:], B[1:]
                continue
            if x.kind == "str" and y.kind == "str":
                if e.valid(x.a == y.a):
                    e.prove(nm, x.a == y.a)
                    A, B = A[1:], B[1:]
                    continue
                if e.decide(core.F_strlen(x.a) == 0):
                    A = A[1:]
                    continue
                if e.decide(core.F_strlen(y.a) == 0):
                    B = B[1:]
                    continue
                e.prove(nm, x.a == y.a, abstract=True)
                raise PathEnd()
            if x.kind == "str" and e.decide(core.F_strlen(x.a) == 0):
                A = A[1:]
                continue
            if y.kind == "str" and e.decide(core.F_strlen(y.a) == 0):
                B = B[1:]
                continue
            if x.kind == y.kind == "R8":
                num_eq(nm, wrap(x.a), wrap(y.a))
                A, B = A[1:], B[1:]
                continue
            if x.kind == y.kind == "fmt":
                if x.a != y.a:
                    return fail(nm, "number formatted as %r instead of %r" % (x.a, y.a))
                num_eq(nm, wrap(x.b), wrap(y.b))
                A, B = A[1:], B[1:]
                continue
            return fail(nm, "%r against %r" % (x, y))
        if isinstance(a, Loop) and isinstance(b, Loop):
            same = e.valid(a.n == b.n)
            if not same and e.decide(a.n <= 0):
                A = A[1:]
                continue
            if not same and e.decide(b.n <= 0):
                B = B[1:]
                continue
            if same or e.decide(a.n == b.n):
                pa, pb, m = a, b, a.n
                A, B = A[1:], B[1:]
            elif e.decide(a.n < b.n):
                pa, pb, m = a, b, a.n
                iv = V.fresh_index()
                A = A[1:]
                B[0] = shifted(b, iv, b.n - m, iv + m)
            else:
                pa, pb, m = a, b, b.n
                iv = V.fresh_index()
                B = B[1:]
                A[0] = shifted(a, iv, a.n - m, iv + m)
            if e.choose(2) == 0:
                j = V.fresh_index("ix")
                e.assume(z3.And(j >= 0, j < m))
                atoms_eq(name + "[*]", models.merge_lits(body_at(pa, j)), models.merge_lits(body_at(pb, j)))
                raise PathEnd()
            continue
        if isinstance(a, While) and isinstance(b, While):
            from . import whiles
            whiles.while_eq(name, a, b, None, (), 0, set(), text=True)
            A, B = A[1:], B[1:]
            continue
        if isinstance(a, Loop):
            A = peel(A)
        elif isinstance(b, Loop):
            B = peel(B)
        else:
            raise Unsupported("text comparison")


def drop_empty(ns):
    while ns and isinstance(ns[0], It) and ns[0].v.kind == "lit" and len(ns[0].v.a) == 0:
        ns = ns[1:]
    return ns


def prove_field(nm, s, t, size):
    e = E()
    d = z3.simplify(s - t, som=True)
    if z3.is_int_value(d) and d.as_long() % 256 ** size == 0:
        return e.prove(nm, z3.BoolVal(True))
    if z3.is_app(s) and z3.is_app(t) and s.decl().name() == t.decl().name() == "rnd":
        d = z3.simplify(s.arg(0) - t.arg(0), som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0 or e.valid(s.arg(0) == t.arg(0)):
            return e.prove(nm, z3.BoolVal(True))
    if e.valid(s == t):
        return e.prove(nm, s == t)
    return prove_cond(nm, (s - t) % (256 ** size) == 0)


# ---------------------------------------------------------------- dictionaries and sets
def dict_eq(name, a, b, ident, depth, seen):
    e = E()
    a = a if isinstance(a, SDict) else SDict(a.items())
    b = b if isinstance(b, SDict) else SDict(b.items())
    if a._base is not None or b._base is not None:
        if a._base is not b._base:
            return fail(name, "different symbolic dictionaries")
    if a._events or b._events or has_group(a) or has_group(b):
        return seq_eq(name + ".groups", group_nodes(a), group_nodes(b), ident, depth, seen, lambda nm, x, y: event_eq(nm, x, y, ident, depth, seen))
    ea, eb = list(a._entries), list(b._entries)
    for k, v in ea:
        hit = None
        for ent in eb:
            if key_eq(ent[0], k):
                hit = ent
                break
        if hit is None:
            return fail(name + ".keys", "unexpected key %r" % (k,))
        eb.remove(hit)
        _eq("%s[%s]" % (name, key_name(k)), v, hit[1], ident, depth + 1, seen)
    if eb:
        return fail(name + ".keys", "missing key %r" % (eb[0][0],))
    e.prove(name + ".keys", True)


def key_name(k):
    return repr(k) if isinstance(k, (str, int)) else "key"


def has_group(d):
    return False


def group_nodes(d):
    """group-by view: nodes of (key, item)"""
    out = []
    for k, v in d._entries:
        out.extend(tag_nodes(k, v))

    def conv(ns):
        res = []
        for n in ns:
            if isinstance(n, It):
                ev = n.v
                if ev[0] in ("ins", "new"):
                    if ev[0] == "new" and False:
                        pass
                    res.extend([x for x in tag(ev[1], ev[2])])
                else:
                    res.append(It((ev[0], ev[1], ev[2])))
            elif isinstance(n, Loop):
                res.append(Loop(n.ivar, n.n, conv(n.body), n.outer))
            elif isinstance(n, If):
                res.append(If(n.c, conv(n.a), conv(n.b)))
            else:
                raise Unsupported("grouped dictionary")
        return res
    return out + conv(d._events)


def tag(k, ns):
    out = []
    for n in ns:
        if isinstance(n, It):
            out.append(It(("item", k, n.v)))
        elif isinstance(n, Loop):
            body = []
            for i, b in enumerate(n.body):
                if isinstance(b, It) and hasattr(b.v, "at"):
                    body.append(It(("item", k, b.v.at(n.ivar, n.ivar))))
                else:
                    body.extend(tag(k, [b]))
            out.append(Loop(n.ivar, n.n, body, n.outer))
        elif isinstance(n, If):
            out.append(If(n.c, tag(k, n.a), tag(k, n.b)))
        else:
            raise Unsupported("grouped dictionary")
    return out


def tag_nodes(k, v):
    if isinstance(v, (VList, list)):
        return tag(k, models.iter_nodes(v))
    return [It(("value", k, v))]


def event_eq(nm, x, y, ident, depth, seen):
    if x[0] != y[0]:
        return fail(nm, "grouped %s against %s" % (x[0], y[0]))
    _eq(nm + ".key", x[1], y[1], ident, depth, seen)
    _eq(nm + ".item", x[2], y[2], ident, depth, seen)


def set_eq(name, a, b, ident, depth, seen):
    e = E()

    def conc(s):
        if isinstance(s, SSet):
            return s.concrete()
        return list(s)
    A, B = conc(a), conc(b)
    if A is None or B is None:
        na = a.nodes if isinstance(a, SSet) else [It(x) for x in a]
        nb = b.nodes if isinstance(b, SSet) else [It(x) for x in b]
        if len(na) == len(nb):
            # multiset match up to the order of the segments
            left = list(nb)
            for x in na:
                for k, y in enumerate(left):
                    if type(x) is type(y) and (not isinstance(x, Loop) or e.valid(x.n == y.n)):
                        from .loops import nodes_same
                        if nodes_same([x], [y]):
                            left.pop(k)
                            break
                else:
                    break
            if not left:
                return e.prove(name, True)
        return seq_eq(name, na, nb, ident, depth, seen)
    if len(A) != len(B):
        return fail(name + ".len", "set sizes %d and %d" % (len(A), len(B)))
    left = list(B)
    for x in A:
        for k, y in enumerate(left):
            if x is y or not (isinstance(x, ident) if ident else False) and key_eq(x, y):
                left.pop(k)
                break
        else:
            return fail(name, "element %r not expected" % (x,))
    e.prove(name, True)
