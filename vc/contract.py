"""Contracts: one Python function per contract, run in two ways.

symbolically  - by the interpreter, on symbolic inputs (SymCtx): every check becomes an obligation
natively      - on the real compiled package with concrete inputs (ConcCtx): used to replay
                counterexamples and as the bounded stand-in / cross-check of the engine
"""
import math
import random
import sys
import time
import traceback
import fractions
import numpy
import z3
from . import core, interp, loops, models, equality
from . import values as V
from .core import E, Unsupported, PathEnd, Restart
from .values import *
from .interp import I_

CONTRACTS = {}  # name -> Contract


class Contract(object):
    def __init__(self, fn, prop, targets, samples, sym, needs_clipper, budget, unroll, note, timeout, limit):
        self.fn, self.prop, self.targets = fn, prop, targets
        self.name = fn.__name__
        self.samples, self.sym = samples, sym
        self.needs_clipper = needs_clipper
        self.budget, self.unroll, self.note, self.timeout, self.limit = budget, unroll, note, timeout, limit


def contract(prop, targets, samples=40, sym=True, clipper=False, budget=120, unroll=4, note="", timeout=6000, limit=15):
    """prop: property id(s); targets: functions under contract; sym=False: bounded stand-in only"""
    def deco(fn):
        for p in prop.split():
            CONTRACTS[(p, fn.__name__)] = Contract(fn, p, targets, samples, sym, clipper, budget, unroll, note, timeout, limit)
        return fn
    return deco


class Violated(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, "%s: %s" % (name, detail))
        self.name, self.detail = name, detail


class Skip(Exception):
    pass


class SymFunction(object):
    """uninterpreted function given to the code under contract"""
    _engine_class_ = True
    _engine_ = True

    def __init__(self, fs, idx, vec):
        self.fs, self.idx, self.vec = fs, idx, vec

    def _subst(self, s):
        return SymFunction(self.fs, [z3.substitute(i, *s.pairs) if s.pairs else i for i in self.idx], self.vec)

    def _sym_eq(self, name, o):
        if not isinstance(o, SymFunction) or len(self.fs) != len(o.fs) or not all(a.eq(b) for a, b in zip(self.fs, o.fs)):
            return equality.fail(name, "not the same function")
        cs = [a == b for a, b in zip(self.idx, o.idx)]
        equality.prove_cond(name, z3.And(*cs) if cs else z3.BoolVal(True))

    def __call__(self, *args):
        a = self.idx + [to_real(lift(interp.unindex(x))) for x in args]
        if not self.vec:
            return SNum(self.fs[0](*a))
        out = numpy.empty(len(self.fs), dtype=object)
        for k, f in enumerate(self.fs):
            out[k] = SNum(f(*a))
        return out


# ------------------------------------------------------------------------------ symbolic context
class Patches(object):
    """replaced attributes of modules, put back after the run"""

    def patch(self, owner, name, value):
        if not hasattr(owner, name):
            raise Unsupported("nothing to replace: %s" % name)
        self.__dict__.setdefault("patches", []).append((owner, name, getattr(owner, name)))
        setattr(owner, name, value)

    def restore(self):
        for o, n, v in reversed(self.__dict__.pop("patches", [])):
            setattr(o, n, v)


class SymCtx(Patches):
    _engine_class_ = True
    symbolic = True

    def __init__(self):
        self.idx = []  # template indices

    # inputs
    def _sym(self, name, sort):
        nm = "in!" + name
        if not self.idx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([core.I] * len(self.idx) + [sort]))
        return f(*self.idx)

    def _range(self, t, lo, hi):
        cs = []
        if lo is not None:
            cs.append(t >= lift(lo))
        if hi is not None:
            cs.append(t <= lift(hi))
        if not cs:
            return
        c = z3.And(*cs)
        if not self.idx:
            E().assume(c)
        else:
            nm = t.decl().name()
            los, his = lo, hi

            def hook(app, lo=lo, hi=hi):
                out = []
                if lo is not None:
                    out.append(app >= lift(lo))
                if hi is not None:
                    out.append(app <= lift(hi))
                return out
            core._axiom_hooks[nm] = hook

    def real(self, name, lo=None, hi=None):
        t = self._sym(name, core.R)
        self._range(t, lo, hi)
        return SNum(t)

    def modest(self, name):
        """any real number (samples stay small)"""
        return self.real(name)

    def posreal(self, name, lo=None, hi=None):
        t = self._sym(name, core.R)
        if self.idx:
            core._axiom_hooks[t.decl().name()] = lambda app: [app > 0] + ([app <= lift(hi)] if hi is not None else [])
        else:
            E().assume(t > 0)
        return SNum(t)

    def int(self, name, lo=None, hi=None):
        t = self._sym(name, core.I)
        self._range(t, lo, hi)
        return SNum(t)

    def tag(self, name):
        """layer / datatype / texttype number"""
        return self.int(name, 0, 32767)

    def bool(self, name):
        return SBool(self._sym(name, core.B))

    def _pick(self, name, n):
        k = E().choose(n)
        E().ghost.setdefault("choices", {})["choice!" + name] = k
        return k

    def flag(self, name):
        return self._pick(name, 2) == 1

    def choice(self, name, options):
        n = len(options) if not isinstance(options, VList) else len(options.concrete())
        return options[self._pick(name, n)]

    def text(self, name, maxlen=None, minlen=0):
        t = self._sym(name, core.StrSort)
        if minlen or maxlen is not None:
            def bounds(app):
                out = [core.F_strlen(app) >= minlen]
                if maxlen is not None:
                    out.append(core.F_strlen(app) <= maxlen)
                return out
            if self.idx:
                core._axiom_hooks[t.decl().name()] = bounds
            else:
                E().assume(z3.And(*bounds(t)))
        return sstr(t)

    def disk(self, data):
        """path of a file with this content"""
        from . import streams
        return streams.SPath(data)

    def stream(self, data):
        """stream opened for reading"""
        from . import streams
        return streams.SStream(streams.SPath(data), "rb")

    def content(self, path):
        return SText(list(path.content._nodes), True)

    def count(self, name, lo=0, hi=None):
        """symbolic number of items"""
        t = self._sym("n!" + name, core.I)
        if self.idx:
            core._axiom_hooks[t.decl().name()] = lambda app: [app >= lo]
        else:
            E().assume(t >= lo)
        return SNum(t)

    def list(self, name, n, f, lo=0):
        """n items built by f() (symbolic n)"""
        if n is None:
            n = self.count(name, lo)
        n = interp.unindex(n)
        if isinstance(n, int):
            return VList([self._named(k, f) for k in range(n)])
        iv = V.fresh_index()
        outer = E().uid_counter
        self.idx.append(iv)
        try:
            v = I_.call(f, [], {})
        finally:
            self.idx.pop()
        return VList(nodes=[Loop(iv, n.t, [It(v)], outer)])

    def _named(self, k, f):
        self.idx.append(z3.IntVal(k))
        try:
            return I_.call(f, [], {})
        finally:
            self.idx.pop()

    def points(self, name, lo=3, hi=8, bound=None):
        """array of points (symbolic number of rows)"""
        n = self.count(name, lo)
        fx = z3.Function("in!%s.x" % name, *([core.I] * (len(self.idx) + 1) + [core.R]))
        fy = z3.Function("in!%s.y" % name, *([core.I] * (len(self.idx) + 1) + [core.R]))
        if bound is not None:
            for f in (fx, fy):
                core._axiom_hooks[f.name()] = lambda app: [app >= -bound, app <= bound]
        idx = list(self.idx)
        return _IdxArr(n, fx, fy, idx)

    def vector(self, name, lo=1, hi=8):
        n = self.count(name, lo)
        fx = z3.Function("in!%s.v" % name, *([core.I] * (len(self.idx) + 1) + [core.R]))
        idx = list(self.idx)
        return SArr(n, lambda j: SNum(fx(*(idx + [j]))), None)

    def matrix(self, name, n, ncols, positive=False):
        """array of n rows and ncols columns"""
        n = interp.unindex(n)
        fs = [z3.Function("in!%s.%d" % (name, k), *([core.I] * (len(self.idx) + 1) + [core.R])) for k in range(ncols)]
        if positive:
            for f in fs:
                core._axiom_hooks[f.name()] = lambda app: [app > 0]
        idx = list(self.idx)

        def row(j):
            out = numpy.empty(ncols, dtype=object)
            for k in range(ncols):
                out[k] = SNum(fs[k](*(idx + [lift(j)])))
            return out
        if isinstance(n, int):
            return numpy.array([row(z3.IntVal(j)) for j in range(n)], dtype=object).reshape(n, ncols)
        return SArr(n, row, ncols)

    def array(self, rows):
        return models.np_array(rows)

    def complex(self, x, y):
        return V.SComplex(x, y)

    def curve(self, name, nargs=1, nonzero=False):
        """arbitrary function of a parameter into the plane"""
        fs = [z3.Function("in!%s.%s" % (name, k), *([core.I] * len(self.idx) + [core.R] * (nargs + 1))) for k in "xy"]
        if nonzero:
            for f in fs:
                core._axiom_hooks[f.name()] = lambda app: [z3.Or(*[g(*app.children()) != 0 for g in fs])]
        return SymFunction(fs, list(self.idx), True)

    def function(self, name, positive=False, nargs=1):
        """arbitrary real function of a parameter"""
        f = z3.Function("in!%s" % name, *([core.I] * len(self.idx) + [core.R] * (nargs + 1)))
        if positive:
            core._axiom_hooks[f.name()] = lambda app: [app > 0]
        return SymFunction([f], list(self.idx), False)

    def new(self, cls, **attrs):
        """object with the given attributes, no constructor run"""
        o = object.__new__(cls)
        E().adopt(o)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o

    def file(self, binary=True):
        return SFile(binary)

    def written(self, f):
        return SText(list(f._nodes), f.isbytes)

    def R8(self, x):
        return SText([It(Atom("R8", to_real(lift(x))))], True)

    def U(self, size, x):
        """big-endian integer field"""
        x = interp.unindex(x)
        if isinstance(x, int):
            return (x % 256 ** size).to_bytes(size, "big")
        return SText([It(Atom("F", size, lift(x)))], True)

    def exact(self, m, k):
        """m * 2**k exactly"""
        return SNum(to_real(lift(m)) * z3.RealVal(fractions.Fraction(2) ** k))

    def mantissa53(self, m):
        return m

    def rnd(self, x):
        """nearest integer"""
        return models.m_round(x) if not isinstance(x, float) else int(round(x))

    def strlen(self, s):
        return models.m_len(s)

    def cos(self, a):
        return models.ew(lambda x: SNum(to_real(lift(x))).cos(), a)

    def sin(self, a):
        return models.ew(lambda x: SNum(to_real(lift(x))).sin(), a)

    def sqrt(self, a):
        return SNum(core.F_sqrt(to_real(lift(a))))

    def atan2(self, y, x):
        return SNum(core.F_atan2(to_real(lift(y)), to_real(lift(x))))

    pi = SNum(core.PI)

    def abs(self, x):
        return abs(x)

    # preconditions and checks
    def assume(self, cond):
        E().assume(zbool(cond))

    def snapshot(self, x):
        return models.DeepCopy()(x)

    def eq(self, name, got, want, tol=None):
        equality.prove_eq(name, got, want)

    def same(self, name, got, want):
        """identity"""
        if E().in_learning():
            return
        if got is want:
            E().prove(name, True)
        elif isinstance(got, SymFunction):
            got._sym_eq(name, want)
        else:
            equality.fail(name, "not the same object")

    def differs(self, name, got, other):
        """not the same object (independent copies)"""
        if E().in_learning():
            return
        if got is not other:
            E().prove(name, True)
        else:
            equality.fail(name, "the same object is shared")

    def check(self, name, cond, why=None):
        if E().in_learning():
            return
        if isinstance(cond, (SBool, SNum)):
            equality.prove_cond(name, zbool(cond))
        else:
            E().prove(name, bool(cond))

    def raises(self, name, exc, f):
        try:
            I_.call(f, [], {})
        except exc:
            E().prove(name, True)
            return True
        except Exception as ex:
            E().prove(name, False, detail="raised %r" % (ex,), abstract=True)
            return False
        E().prove(name, False, detail="no %s raised" % (exc,), abstract=True)
        return False

    def forall(self, name, seq, f):
        """f(item), for an arbitrary item, checks something or returns a condition that must hold"""
        ns = models.iter_nodes(seq)
        self._forall(name, ns, f)

    def _forall(self, name, ns, f):
        e = E()
        ns = list(ns)
        while ns:
            ns = equality.norm_head(ns)
            if not ns:
                return
            h = ns.pop(0)
            if isinstance(h, It):
                r = I_.call(f, [h.v], {})
                if r is not None:
                    self.check(name, r)
            elif isinstance(h, Loop):
                if e.choose(2) == 0:
                    j = V.fresh_index("ix")
                    e.assume(z3.And(j >= 0, j < h.n))
                    self._forall(name, equality.body_at(h, j), f)
                    raise PathEnd()
            else:
                raise Unsupported("forall over while sequence")

    def forall_assume(self, seq, f):
        """precondition on every item of an input sequence (the item must be an input built by c.list)"""
        for n in models.iter_nodes(seq):
            if isinstance(n, It):
                E().assume(zbool(I_.call(f, [n.v], {})))
            elif isinstance(n, Loop):
                if len(n.body) != 1 or not isinstance(n.body[0], It):
                    raise Unsupported("forall_assume")
                cond = zbool(I_.call(f, [n.body[0].v], {}))
                apps = [a for a in core.collect_apps([cond]) if a.num_args() and a.arg(a.num_args() - 1).eq(n.ivar) and a.decl().name().startswith(("in!", "n!"))]
                if not apps:
                    raise Unsupported("forall_assume")
                head = sorted(apps, key=lambda a: a.decl().name())[0]
                prev = core._axiom_hooks.get(head.decl().name())

                def hook(app, head=head, cond=cond, prev=prev):
                    out = list(prev(app)) if prev else []
                    out.append(z3.substitute(cond, *[(h, a) for h, a in zip(head.children(), app.children())]))
                    return out
                core._axiom_hooks[head.decl().name()] = hook
            else:
                raise Unsupported("forall_assume")

    def leq(self, name, a, b):
        self.check(name, a <= b)

    def cos_decreasing(self, x, y):
        """fact: the cosine decreases between 0 and pi"""
        x, y = to_real(lift(x)), to_real(lift(y))
        E().assume(z3.Implies(z3.And(0 <= x, x <= y, y <= core.PI), core.F_cos(y) <= core.F_cos(x)))

    def acos(self, x):
        t = core.F_acos(to_real(lift(x)))
        E().assume(z3.Implies(z3.And(lift(x) >= -1, lift(x) <= 1), z3.And(t >= 0, t <= core.PI, core.F_cos(t) == lift(x))))
        return SNum(t)

    def parameters(self, f, pts, start=0):
        """parameters at which the next sampled curve was evaluated, ends included"""
        rs = E().ghost.get("refinements", [])
        k = E().ghost.get("refinements seen", 0)
        if k >= len(rs):
            raise Unsupported("no sampled curve found")
        E().ghost["refinements seen"] = k + 1
        return rs[k].params

    def cover(self, name="path"):
        E().cover(name)

    def note_vacuous(self):
        pass

    def length(self, x):
        return models.m_len(x)

    def is_none(self, name, x):
        if x is None:
            E().prove(name, True)
        else:
            equality.fail(name, "not None")

    def sum(self, it):
        return models.m_sum(it)

    def concrete_only(self):
        raise PathEnd()


def _IdxArr(n, fx, fy, idx):
    def f(j):
        out = numpy.empty(2, dtype=object)
        out[0] = SNum(fx(*(idx + [j])))
        out[1] = SNum(fy(*(idx + [j])))
        return out
    return SArr(n, f, 2)


def sampled_parameters(f, pts):
    """increasing parameters, from 0 to 1, at which f takes the first of the given values, up to the end of the curve"""
    pts = [numpy.array(p, dtype=float) for p in pts]
    end = numpy.array(f(1))
    for k in range(1, len(pts)):
        here = numpy.abs(pts[k:k + 2] - end).max(1) <= 1e-9 * max(1e-300, numpy.abs(pts).max())
        if here[0] and not here[1:].all():
            pts = pts[:k + 1]
            break
    grid = numpy.linspace(0, 1, 2001)
    val = numpy.array([f(u) for u in grid])
    size = max(1e-300, numpy.abs(val).max())
    err = lambda u, p: (lambda d: d[0] * d[0] + d[1] * d[1])(numpy.array(f(u)) - p)
    options = []
    for k, p in enumerate(pts):
        if k == 0 or k == len(pts) - 1:
            u = 0.0 if k == 0 else 1.0
            if err(u, p) > (1e-7 * size) ** 2:
                raise Violated("parameters: the curve does not %s at the required point" % ("start" if k == 0 else "end"))
            options.append([(err(u, p), u)])
            continue
        d = ((val - p) ** 2).sum(1)
        here = []
        for j in range(len(grid)):
            if j and d[j] > d[j - 1] or j + 1 < len(grid) and d[j] > d[j + 1] or d[j] > (0.02 * size) ** 2:
                continue
            a, b = grid[max(0, j - 1)], grid[min(len(grid) - 1, j + 1)]
            for _ in range(90):
                u1, u2 = a + 0.382 * (b - a), a + 0.618 * (b - a)
                if err(u1, p) <= err(u2, p):
                    b = u2
                else:
                    a = u1
            u = 0.5 * (a + b)
            if err(u, p) < (1e-7 * size) ** 2:
                here.append((err(u, p), u))
        if not here:
            raise Violated("parameters: sampled point %d of %d (%r) is not on the curve" % (k, len(pts), p.tolist()))
        options.append(here)

    def deviation(a, b):
        m = numpy.array(f(0.5 * (a + b)))
        return (((numpy.array(f(a)) + numpy.array(f(b))) / 2 - m) ** 2).sum()
    # among the candidates: increasing, then least deviation between neighbours, then closest
    cost, back = [0.0], []
    for k in range(1, len(pts)):
        now, frm = [], []
        for e, u in options[k]:
            best = None
            for i, (e0, u0) in enumerate(options[k - 1]):
                c = (cost[i] if u > u0 - 1e-9 else 1e300) + deviation(u0, u) + e
                if best is None or c < best[0]:
                    best = (c, i)
            now.append(best[0])
            frm.append(best[1])
        cost = now
        back.append(frm)
    i = 0
    out = [options[-1][0][1]]
    for k in range(len(pts) - 2, -1, -1):
        i = back[k][i]
        out.append(options[k][i][1])
    return out[::-1]


# ------------------------------------------------------------------------------ concrete context
class Model(object):
    """values of input symbols from a solver model"""

    def __init__(self, m):
        self.m = m
        self.decls = {d.name(): d for d in m.decls()}

    def get(self, name, idx, sort):
        d = self.decls.get(name)
        if d is None:
            return None
        try:
            if d.arity() != len(idx):
                return None
            v = self.m.eval(d(*[z3.IntVal(i) for i in idx]) if idx else d(), model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None


class ConcCtx(Patches):
    symbolic = False

    def __init__(self, seed, model=None, choices=None, values=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.seed = seed
        self.model = model
        self.idx = []
        self.log = {}
        self.values = values
        self.choices = choices
        self.checks = 0
        self.scratch = None
        self.failed = None
        self.pi = math.pi
        self.style = self.rng.randrange(4)

    def _draw(self, name, gen):
        key = (name, tuple(self.idx))
        skey = "%s%s" % (name, list(self.idx) if self.idx else "")
        if key in self.log:
            return self.log[key]
        v = None
        if self.values is not None and skey in self.values:
            v = self.values[skey]
        elif self.choices and name in self.choices:
            v = self.choices[name]
        elif self.model is not None:
            v = self.model.get("in!" + name, self.idx, None)
        if v is None:
            v = gen()
        self.log[key] = v
        return v

    def dump(self):
        out = {}
        for (n, i), v in self.log.items():
            out["%s%s" % (n, list(i) if i else "")] = v if isinstance(v, (int, float, str, bool)) else repr(v)
        if not out:
            out["random seed"] = self.seed
        return out

    def real(self, name, lo=None, hi=None):
        def gen():
            if lo is not None and hi is not None:
                if self.rng.random() < 0.1:
                    return self.rng.choice([lo, hi])
                return self.rng.uniform(lo, hi)
            st = self.style
            if st == 0:
                v = float(self.rng.randint(-12, 12))
            elif st == 1:
                v = self.rng.uniform(-10, 10)
            elif st == 2:
                v = self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-2, 4)
            else:
                v = self.rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 90.0, self.rng.uniform(-100, 100)])
            if lo is not None and v < lo:
                v = lo + abs(v)
            if hi is not None and v > hi:
                v = hi - abs(v)
            return v
        v = self._draw(name, gen)
        v = float(v)
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v

    def modest(self, name):
        return float(self._draw(name, lambda: float(self.rng.randint(-8, 8)) if self.style == 0 else self.rng.uniform(-10, 10)))

    def posreal(self, name, lo=None, hi=None):
        v = abs(float(self._draw(name, lambda: self.rng.choice([1.0, 2.0, 0.5, self.rng.uniform(0.1, hi or 10)]))))
        if v == 0:
            v = 1.0
        if hi is not None:
            v = min(v, hi)
        return v

    def int(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else -20
            b = hi if hi is not None else max(a + 20, 20)
            if b - a > 40 and self.rng.random() < 0.6:
                b = a + 5
            return self.rng.randint(a, b)
        v = int(self._draw(name, gen))
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v

    def tag(self, name):
        return self.int(name, 0, 32767) if self.rng.random() < 0.2 else self.int(name, 0, 3)

    def bool(self, name):
        return bool(self._draw(name, lambda: self.rng.random() < 0.5))

    def _choose(self, n, name):
        return int(self._draw("choice!" + name, lambda: self.rng.randrange(n))) % n

    def flag(self, name):
        return self._choose(2, name) == 1

    def choice(self, name, options):
        return options[self._choose(len(options), name)]

    def text(self, name, maxlen=None, minlen=0):
        def gen():
            n = self.rng.randint(minlen, max(minlen, maxlen if maxlen is not None and maxlen < 12 else 9))
            return "".join(self.rng.choice("abcXYZ019_ $") for _ in range(n)).rstrip(" ") .ljust(minlen, "q")
        v = self._draw(name, gen)
        return v if isinstance(v, str) else str(v)

    def count(self, name, lo=0, hi=None):
        def gen():
            return self.rng.randint(lo, max(lo, hi if hi is not None else lo + 3))
        v = int(self._draw("n!" + name, gen))
        return min(max(v, lo), 40)

    def list(self, name, n, f, lo=0):
        if n is None:
            n = self.count(name, lo)
        out = []
        for k in range(n):
            self.idx.append(k)
            try:
                out.append(f())
            finally:
                self.idx.pop()
        return out

    def points(self, name, lo=3, hi=8, bound=None):
        n = self.count(name, lo, hi)
        out = []
        for k in range(n):
            self.idx.append(k)
            out.append((self.real(name + ".x"), self.real(name + ".y")))
            self.idx.pop()
        return numpy.array(out, dtype=float).reshape(n, 2)

    def vector(self, name, lo=1, hi=8):
        n = self.count(name, lo, hi)
        out = []
        for k in range(n):
            self.idx.append(k)
            out.append(self.real(name + ".v"))
            self.idx.pop()
        return numpy.array(out, dtype=float)

    def matrix(self, name, n, ncols, positive=False):
        out = []
        for k in range(n):
            self.idx.append(k)
            out.append([self.posreal("%s.%d" % (name, j)) if positive else self.real("%s.%d" % (name, j)) for j in range(ncols)])
            self.idx.pop()
        return numpy.array(out, dtype=float).reshape(n, ncols)

    def complex(self, x, y):
        return complex(x, y)

    def array(self, rows):
        return numpy.array(rows, dtype=float)

    def curve(self, name, nargs=1, nonzero=False):
        k = [[self.real("%s.%s%d" % (name, x, i), -5, 5) for i in range(4)] for x in "xy"]
        return ConcFunction(k, True)

    def function(self, name, positive=False, nargs=1):
        k = [self.real("%s.%d" % (name, i), -1, 1) for i in range(3)]
        if positive:
            return ConcFunction([[abs(k[0]) + 0.1, abs(k[1]), abs(k[2])]], False)
        return ConcFunction([k], False)

    def new(self, cls, **attrs):
        o = object.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o

    def file(self, binary=True):
        import io
        return io.BytesIO() if binary else io.StringIO()

    def written(self, f):
        return f.getvalue()

    def folder(self):
        """scratch directory of this run"""
        if self.scratch is None:
            import tempfile
            self.scratch = tempfile.mkdtemp(prefix="verif-gds-")
        return self.scratch

    def disk(self, data):
        import os, pathlib
        path = os.path.join(self.folder(), "file%d.gds" % self.rng.randrange(10 ** 9))
        with open(path, "wb") as f:
            f.write(bytes(data))
        return path if self.rng.random() < 0.5 else pathlib.Path(path)

    def stream(self, data):
        import io
        return io.BytesIO(bytes(data))

    def content(self, path):
        with open(str(path), "rb") as f:
            return f.read()

    def cleanup(self):
        self.restore()
        if self.scratch is not None:
            import shutil
            shutil.rmtree(self.scratch, ignore_errors=True)

    def R8(self, x):
        return Real8(x)

    def U(self, size, x):
        return (int(x) % 256 ** size).to_bytes(size, "big")

    def exact(self, m, k):
        """m * 2**k correctly rounded to a double"""
        return float(fractions.Fraction(int(m)) * fractions.Fraction(2) ** k)

    def written_r8(self, x):
        return enc_r8(x)

    def mantissa53(self, m):
        """the mantissa of the nearest double (not above 2**53 significant bits)"""
        f = float(int(m))
        return int(f)

    def rnd(self, x):
        return int(round(x))

    def strlen(self, s):
        return len(s)

    def cos(self, a):
        return numpy.cos(a)

    def sin(self, a):
        return numpy.sin(a)

    def sqrt(self, a):
        return math.sqrt(a)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def abs(self, x):
        return abs(x)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def snapshot(self, x):
        import copy
        return copy.deepcopy(x)

    def _fail(self, name, detail):
        raise Violated(name, detail)

    def eq(self, name, got, want, tol=None):
        self.checks += 1
        r = conc_eq(got, want, tol if tol is not None else 1e-7)
        if r is not None:
            self._fail(name, r)

    def same(self, name, got, want):
        self.checks += 1
        if got is not want:
            self._fail(name, "not the same object")

    def differs(self, name, got, other):
        self.checks += 1
        if got is other:
            self._fail(name, "the same object is shared")
        if isinstance(got, numpy.ndarray) and isinstance(other, numpy.ndarray) and numpy.shares_memory(got, other):
            self._fail(name, "memory is shared")

    def check(self, name, cond, why=None):
        self.checks += 1
        if not cond:
            self._fail(name, why or "does not hold")

    def raises(self, name, exc, f):
        self.checks += 1
        try:
            f()
        except exc:
            return True
        except Exception as ex:
            self._fail(name, "raised %r" % (ex,))
        self._fail(name, "no %s raised" % (exc,))

    def forall_assume(self, seq, f):
        for x in seq:
            if not f(x):
                raise Skip()

    def forall(self, name, seq, f):
        for x in seq:
            r = f(x)
            if r is not None:
                self.check(name, r)

    def cos_decreasing(self, x, y):
        pass

    def acos(self, x):
        return math.acos(max(-1, min(1, x)))

    def parameters(self, f, pts, start=0):
        return sampled_parameters(f, (pts() if callable(pts) else pts)[start:])

    def leq(self, name, a, b):
        return self.check(name, a <= b + 1e-4 * abs(b) + 1e-12, "%r > %r" % (a, b))

    def cover(self, name="path"):
        pass

    def length(self, x):
        return len(x)

    def is_none(self, name, x):
        self.checks += 1
        if x is not None:
            self._fail(name, "not None")

    def sum(self, it):
        return sum(it)

    def concrete_only(self):
        pass


class ConcFunction(object):
    def __init__(self, k, vec):
        self.k, self.vec = k, vec

    def __deepcopy__(self, memo):
        return self

    def __call__(self, u, *more):
        v = [sum(c * u ** i for i, c in enumerate(k)) for k in self.k]
        return numpy.array(v) if self.vec else v[0]


class Real8(object):
    """expected 8-byte real inside an expected byte string"""

    def __init__(self, x):
        self.x = x

    def __len__(self):
        return 8

    def __radd__(self, o):
        return Bytes([o, self]) if not isinstance(o, Bytes) else Bytes(o.parts + [self])

    def __add__(self, o):
        return Bytes([self] + (o.parts if isinstance(o, Bytes) else [o]))


class Bytes(object):
    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return Bytes(self.parts + (o.parts if isinstance(o, Bytes) else [o]))

    def __radd__(self, o):
        return Bytes([o] + self.parts)

    def __bytes__(self):
        out = b""
        for p in self.parts:
            out += enc_r8(p.x) if isinstance(p, Real8) else p
        return out

    def __len__(self):
        return sum(8 if isinstance(p, Real8) else len(p) for p in self.parts)


def enc_r8(x):
    """independent GDSII 8-byte real encoder (exact rational arithmetic)"""
    f = fractions.Fraction(float(x))
    if f == 0:
        return b"\0" * 8
    s = 0
    if f < 0:
        s, f = 0x80, -f
    e = 0
    while f >= 1:
        f /= 16
        e += 1
    while f < fractions.Fraction(1, 16):
        f *= 16
        e -= 1
    m = int(f * 2 ** 56)
    return bytes([s + e + 64]) + m.to_bytes(7, "big")


def dec_r8(b):
    m = int.from_bytes(b[1:], "big")
    v = fractions.Fraction(m, 2 ** 56) * fractions.Fraction(16) ** ((b[0] & 0x7F) - 64)
    return -v if b[0] & 0x80 else v


def conc_eq(a, b, tol, path=""):
    """None if equal, else description"""
    if isinstance(b, (Bytes, Real8)):
        b = bytes(b) if isinstance(b, Bytes) else enc_r8(b.x)
    if isinstance(a, (Bytes, Real8)):
        a = bytes(a) if isinstance(a, Bytes) else enc_r8(a.x)
    if a is b:
        return None
    if isinstance(a, numpy.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, numpy.ndarray) and b.ndim == 0:
        b = b.item()
    if a is None or b is None:
        return "%s: %r instead of %r" % (path, a, b)
    num = (int, float, numpy.number, bool, numpy.bool_)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (int, numpy.integer)) and isinstance(b, (int, numpy.integer)):
            return None if int(a) == int(b) else "%s: %r instead of %r" % (path, a, b)
        x, y = float(a), float(b)
        if x == y or abs(x - y) <= tol * (1 + max(abs(x), abs(y))):
            return None
        return "%s: %r instead of %r" % (path, x, y)
    if isinstance(a, complex) or isinstance(b, complex):
        return None if abs(a - b) <= tol * (1 + abs(a)) else "%s: %r instead of %r" % (path, a, b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return None if type(a) is type(b) and a == b else "%s: %r instead of %r" % (path, a, b)
    seq = (list, tuple, numpy.ndarray, range)
    if isinstance(a, seq) and isinstance(b, seq):
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (path, len(a), len(b))
        if isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray) and a.dtype != object and b.dtype != object and a.shape == b.shape and a.size:
            x, y = a.astype(float), b.astype(float)
            sc = max(1.0, float(numpy.abs(x).max()), float(numpy.abs(y).max()))
            if numpy.all(numpy.abs(x - y) <= tol * sc):
                return None
        for k, (x, y) in enumerate(zip(a, b)):
            r = conc_eq(x, y, tol, "%s[%d]" % (path, k))
            if r is not None:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %r instead of %r" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = conc_eq(a[k], b[k], tol, "%s[%r]" % (path, k))
            if r is not None:
                return r
        return None
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return None if a == b else "%s: %r instead of %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %s instead of %s" % (path, type(a).__name__, type(b).__name__)
    if hasattr(a, "__dict__") or hasattr(type(a), "__slots__"):
        aa, ab = interp.instance_attrs(a), interp.instance_attrs(b)
        if not aa and not ab:
            return None if a == b else "%s: different objects" % path
        if aa != ab:
            return "%s: different attributes" % path
        for n in aa:
            r = conc_eq(getattr(a, n), getattr(b, n), tol, path + "." + n)
            if r is not None:
                return r
        return None
    return None if a == b else "%s: %r instead of %r" % (path, a, b)


# ------------------------------------------------------------------------------ running contracts
ENGINE_ERR = ("SNum", "SBool", "VList", "SArr", "SText", "SDict", "SSet", "IFunc", "TypedNd", "SFile", "LazyTuple", "PyIter", "NoneType' object has no attribute 'trail")


def callee_contracts(eng):
    """callers of the 8-byte real conversions are checked against the contracts that C01 proves"""
    import gdspy.gdsiiformat as g

    def enc(value):
        if not interp.is_sym(value):
            return g._eight_byte_real(value)
        eng.callee["gdsiiformat._eight_byte_real"] = eng.callee.get("gdsiiformat._eight_byte_real", 0) + 1
        return SText([It(Atom("R8", to_real(lift(interp.unindex(value)))))], True)

    def dec(value):
        if not interp.is_sym(value):
            return g._eight_byte_real_to_float(value)
        if isinstance(value, SText) and len(value.nodes) == 1 and isinstance(value.nodes[0], It) and value.nodes[0].v.kind == "R8":
            eng.callee["gdsiiformat._eight_byte_real_to_float"] = eng.callee.get("gdsiiformat._eight_byte_real_to_float", 0) + 1
            return SNum(value.nodes[0].v.a)
        raise Unsupported("decoding symbolic bytes")
    eng.callee = {}
    for nm, f in (("_eight_byte_real", enc), ("_eight_byte_real_to_float", dec)):
        if hasattr(g, nm):
            eng.summaries[getattr(g, nm)] = f


def prove_contract(c, budget=None):
    """symbolic run; returns dict"""
    interp.fresh_interp()
    eng = loops.EngineLoops(timeout_ms=c.timeout, deadline=time.time() + (budget or c.budget))
    eng.unroll = c.unroll
    if c.prop != "C01":
        callee_contracts(eng)
    t0 = time.time()
    status, why = "done", ""

    def run():
        interp.fresh_interp()
        for nm in [k for k in core._axiom_hooks if k.startswith(("in!", "n!"))]:
            del core._axiom_hooks[nm]
        eng.end_reason = None
        ctx = SymCtx()
        try:
            I_.call(c.fn, [ctx], {})
            eng.cover("end")
        except Skip:
            pass
        except Exception as ex:
            if eng.in_learning():
                raise Unsupported("exception in a loop body: %r" % (ex,))
            msg = repr(ex)
            tb = traceback.format_exc()
            if eng._check(eng.facts) == z3.unsat:
                return
            if any(w in msg for w in ENGINE_ERR) or isinstance(ex, (RecursionError, MemoryError, z3.Z3Exception, ImportError)) or isinstance(ex, NameError) and "/vc/" in traceback.extract_tb(ex.__traceback__)[-1].filename and "raise" not in (traceback.extract_tb(ex.__traceback__)[-1].line or ""):
                raise Unsupported("engine limit: %s" % msg[:200] + " | " + tb[-600:])
            eng.obligations.append(core.Obligation("no exception", "refuted", "".join(str(e.cur) for e in eng.trail[: eng.pos]), "%s\n%s" % (msg, tb[-1200:]), 0.0, "structural", eng._model(), True))
        finally:
            ctx.restore()
    try:
        eng.explore(run)
    except Unsupported as ex:
        status, why = "unsupported", str(ex)
    except RecursionError as ex:
        status, why = "unsupported", "recursion: %s" % str(ex)[:100]
    except Restart:
        status, why = "unsupported", "restart outside exploration"
    except (KeyError, AttributeError, TypeError, z3.Z3Exception, AssertionError, IndexError, ValueError) as ex:
        status, why = "unsupported", "engine error: %r %s" % (ex, traceback.format_exc()[-900:])
    return {"engine": eng, "status": status, "why": why, "secs": time.time() - t0}


UF_INCOMPLETE = ("cos", "sin", "tan", "sqrt", "atan2", "acos", "exp", "log2", "powr", "p16", "p2")


def run_conc(c, seed, model=None, choices=None, values=None):
    """native run; returns (outcome, ctx): 'ok' | 'skip' | 'violated' | 'error', detail"""
    import warnings
    ctx = ConcCtx(seed, model, choices, values)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with numpy.errstate(all="ignore"):
                try:
                    c.fn(ctx)
                finally:
                    ctx.cleanup()
        return "ok", "", ctx
    except Skip:
        return "skip", "", ctx
    except Violated as v:
        return "violated", str(v), ctx
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        inner = any("/gdspy/" in f.filename for f in tb)
        if not inner and not (tb and "gdspy" in str(ex)):
            return "error", "exception %r\n%s" % (ex, traceback.format_exc()[-1500:]), ctx
        return "violated", "exception %r\n%s" % (ex, traceback.format_exc()[-1500:]), ctx
