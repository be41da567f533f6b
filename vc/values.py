"""Symbolic values: numbers, strings, sequences, arrays, dictionaries, sets."""
import fractions
import math
import numbers
import types
import numpy
import z3
from . import core
from .core import E, Unsupported, PathEnd, R, I, B

PI_F = math.pi
_pi_den = (1, 2, 3, 4, 6, 8, 12, 180, 360, 720)


def real_of_float(x):
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite constant")
    if x != 0:
        for d in _pi_den:
            q = x * d / PI_F
            r = round(q)
            if r != 0 and abs(r) <= 720 and abs(q - r) < 1e-13 * abs(r):
                return core.PI * z3.RealVal(fractions.Fraction(r, d))
            q = x * PI_F / d  # k*d/pi  (e.g. 180/pi)
            r = round(q)
    if x == int(x) and abs(x) < 1e15:
        return z3.RealVal(int(x))
    fr = fractions.Fraction(x)
    odd = fr.numerator
    while odd and odd % 2 == 0:
        odd //= 2
    if abs(odd) < 2 ** 32:
        return z3.RealVal(fr)  # short dyadic number: exact value
    r = fractions.Fraction(repr(float(x)))
    near = r.limit_denominator(1000)
    if near and abs(near - r) <= abs(near) * fractions.Fraction(1, 10 ** 15):
        return z3.RealVal(near)  # rounded result of a short rational calculation such as 1 - 0.8 or 1 / 3
    return z3.RealVal(r)


def lift(x):
    """Python/numpy number or symbolic value -> z3 arithmetic term."""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, numpy.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, numpy.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, numpy.floating)):
        return real_of_float(float(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, numpy.ndarray) and x.shape == ():
        return lift(x.item())
    raise Unsupported("number expected, got %s" % type(x).__name__)


def to_real(t):
    return z3.ToReal(t) if t.sort() == I else t


def wrap(t):
    if z3.is_bool(t):
        return SBool(t)
    return SNum(t)


def wrapc(t):
    """wrap, folding numeral integers to Python ints."""
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return wrap(t)


def isnum(x):
    return isinstance(x, (SNum, int, float, numpy.integer, numpy.floating, bool, numpy.bool_, fractions.Fraction))


def _binop(f, intok=True):
    def op(self, o):
        if isinstance(o, (SArr, VList)) or not (isnum(o) or isinstance(o, SBool)):
            if isinstance(o, numpy.ndarray) and o.shape == ():
                o = o.item()
            else:
                return NotImplemented
        a, b = self.t, lift(o)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        return f(a, b)
    return op


def _rbinop(f):
    g = _binop(lambda a, b: f(b, a))
    return g


def _div(a, b):
    b = to_real(b)
    a = to_real(a)
    sb = z3.simplify(b)
    if z3.is_rational_value(sb):
        if sb.numerator_as_long() == 0:
            raise ZeroDivisionError()
    else:
        # division by zero is an error or a non-finite value: outside the mathematical reading
        E().assume(b != 0)
    return SNum(a / b)


def _floordiv(a, b):
    if a.sort() == I and b.sort() == I:
        sb = z3.simplify(b)
        if z3.is_int_value(sb):
            k = sb.as_long()
            if k == 0:
                raise ZeroDivisionError()
            if k > 0:
                return wrapc(a / b)
        if E().valid(b > 0):
            return wrapc(a / b)
        raise Unsupported("integer floor division by non-positive divisor")
    q = to_real(a) / to_real(b)
    return SNum(z3.ToReal(z3.ToInt(q)))


def _mod(a, b):
    if a.sort() == I and b.sort() == I:
        sb = z3.simplify(b)
        if z3.is_int_value(sb) and sb.as_long() > 0 or E().valid(b > 0):
            return wrapc(a % b)
        raise Unsupported("integer modulo by non-positive divisor")
    a, b = to_real(a), to_real(b)
    sb = z3.simplify(b)
    if not (z3.is_rational_value(sb) and sb.numerator_as_long() > 0) and not E().valid(b > 0):
        raise Unsupported("real modulo")
    return SNum(a - b * z3.ToReal(z3.ToInt(a / b)))


def _pow(a, b):
    sb = z3.simplify(b)
    if z3.is_int_value(sb) or (z3.is_rational_value(sb) and sb.denominator_as_long() == 1):
        k = sb.as_long() if z3.is_int_value(sb) else sb.numerator_as_long()
        if 0 <= k <= 8:
            r = z3.IntVal(1) if a.sort() == I else z3.RealVal(1)
            for _ in range(k):
                r = r * a
            return SNum(r)
        if -4 <= k < 0:
            r = z3.RealVal(1)
            for _ in range(-k):
                r = r * to_real(a)
            E().assume(r != 0)
            return SNum(1 / r)
    if z3.is_rational_value(sb) and sb.denominator_as_long() == 2 and sb.numerator_as_long() == 1:
        return SNum(core.F_sqrt(to_real(a)))
    sa = z3.simplify(a)
    if z3.is_int_value(sa) or z3.is_rational_value(sa):
        v = sa.as_fraction() if z3.is_rational_value(sa) else sa.as_long()
        k = unique_int(sb) if v in (2, 16) else None
        if k is not None:
            return SNum(z3.RealVal(fractions.Fraction(int(v)) ** k))
        if b.sort() == I and v == 16:
            return SNum(core.F_p16(b))
        if b.sort() == I and v == 2:
            return SNum(core.F_p2(b))
    return SNum(core.F_powr(to_real(a), to_real(b)))


def unique_int(t):
    """the only integer value t can have on this path, or None"""
    t = z3.simplify(t)
    e = E()
    s = z3.Solver()
    s.set("timeout", 2000)
    for f in e.facts:
        s.add(f)
    v = z3.Real("unique!v")
    s.add(v == to_real(t))
    if s.check() != z3.sat:
        return None
    q = s.model().eval(v)
    if not z3.is_rational_value(q) or q.denominator_as_long() != 1:
        return None
    k = q.numerator_as_long()
    return k if e.valid(to_real(t) == k) else None


class SNum(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __add__ = _binop(lambda a, b: SNum(a + b))
    __radd__ = _rbinop(lambda a, b: SNum(a + b))
    __sub__ = _binop(lambda a, b: SNum(a - b))
    __rsub__ = _rbinop(lambda a, b: SNum(a - b))
    __mul__ = _binop(lambda a, b: SNum(a * b))
    __rmul__ = _rbinop(lambda a, b: SNum(a * b))
    __truediv__ = _binop(_div)
    __rtruediv__ = _rbinop(_div)
    __floordiv__ = _binop(_floordiv)
    __rfloordiv__ = _rbinop(_floordiv)
    __mod__ = _binop(_mod)
    __rmod__ = _rbinop(_mod)
    __pow__ = _binop(_pow)
    __rpow__ = _rbinop(_pow)
    __lt__ = _binop(lambda a, b: SBool(a < b))
    __le__ = _binop(lambda a, b: SBool(a <= b))
    __gt__ = _binop(lambda a, b: SBool(a > b))
    __ge__ = _binop(lambda a, b: SBool(a >= b))

    def __divmod__(self, o):
        return self // o, self % o

    def __eq__(self, o):
        if isinstance(o, numpy.ndarray) or isinstance(o, (SArr, VList)):
            return NotImplemented
        if not (isnum(o) or isinstance(o, SBool)):
            return False
        a, b = self.t, lift(o)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        return SBool(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

    def __neg__(self):
        return SNum(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return E().decide(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported("round with digits")
        return self.rint() if nd == 0 else self._rint_int()

    def _rint_int(self):
        if self.t.sort() == I:
            return self
        return SNum(core.F_rnd(self.t))

    def rint(self):
        if self.t.sort() == I:
            return self
        return SNum(z3.ToReal(core.F_rnd(self.t)))

    def __int__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("int() of a symbolic number outside the interpreter")

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("symbolic number used as native index")

    def __float__(self):
        raise Unsupported("float() of a symbolic number outside the interpreter")

    def trunc(self):
        if self.t.sort() == I:
            return self
        t = self.t
        return SNum(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    def __trunc__(self):
        return self.trunc()

    def floor(self):
        return self if self.t.sort() == I else SNum(z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        return self if self.t.sort() == I else SNum(z3.ToReal(-z3.ToInt(-self.t)))

    def __floor__(self):
        return self if self.t.sort() == I else SNum(z3.ToInt(self.t))

    def __ceil__(self):
        return self if self.t.sort() == I else SNum(-z3.ToInt(-self.t))

    # numpy ufuncs on object arrays call these
    def cos(self):
        k = core.quarter(to_real(self.t))
        if k is not None:
            return SNum(z3.RealVal((1, 0, -1, 0)[k % 4]))
        return SNum(core.F_cos(to_real(z3.simplify(self.t))))

    def sin(self):
        k = core.quarter(to_real(self.t))
        if k is not None:
            return SNum(z3.RealVal((0, 1, 0, -1)[k % 4]))
        return SNum(core.F_sin(to_real(z3.simplify(self.t))))

    def tan(self):
        return SNum(core.F_tan(to_real(z3.simplify(self.t))))

    def sqrt(self):
        return SNum(core.F_sqrt(to_real(self.t)))

    def arccos(self):
        return SNum(core.F_acos(to_real(self.t)))

    def exp(self):
        return SNum(core.F_exp(to_real(self.t)))

    def log2(self):
        return SNum(core.F_log2(to_real(self.t)))

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def _bits(self, m):
        """self & mask for a constant mask of a non-negative integer."""
        if self.t.sort() != I:
            raise Unsupported("bit operation on real")
        if m < 0:
            raise Unsupported("negative mask")
        if not E().valid(self.t >= 0):
            raise Unsupported("mask of possibly negative integer")
        # decompose mask into runs of ones
        res = z3.IntVal(0)
        pos = 0
        mm = m
        while mm:
            while not mm & 1:
                mm >>= 1
                pos += 1
            w = 0
            while mm & 1:
                mm >>= 1
                w += 1
            res = res + ((self.t / (2 ** pos)) % (2 ** w)) * (2 ** pos)
            pos += w
        return wrapc(res)

    def __and__(self, o):
        if isinstance(o, (int, numpy.integer)):
            return self._bits(int(o))
        return NotImplemented

    __rand__ = __and__

    def __rshift__(self, o):
        if isinstance(o, int):
            return wrapc(self.t / (2 ** o))
        return NotImplemented

    def __lshift__(self, o):
        if isinstance(o, int):
            return wrapc(self.t * (2 ** o))
        return NotImplemented

    def __or__(self, o):
        if isinstance(o, int):
            low = self._bits(o)
            return wrapc(self.t + o - lift(low))
        return NotImplemented

    __ror__ = __or__

    def __repr__(self):
        return "<%s>" % z3.simplify(self.t)


numbers.Number.register(SNum)


def _times(a, b):
    """product of real parts, without terms for zeros and ones"""
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, SNum) and x == 0:
            return 0
        if not isinstance(x, SNum) and x == 1:
            return y
    return a * b


class SComplex(object):
    """complex number: two real parts"""
    __slots__ = ("real", "imag")
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def _subst(self, s):
        return SComplex(s(self.real), s(self.imag))

    @staticmethod
    def parts(o):
        if isinstance(o, (SComplex, complex, numpy.complexfloating)):
            return o.real, o.imag
        if isnum(o) or isinstance(o, SBool):
            return o, 0
        return None

    def __add__(self, o):
        p = SComplex.parts(o)
        return NotImplemented if p is None else SComplex(self.real + p[0], self.imag + p[1])
    __radd__ = __add__

    def __sub__(self, o):
        p = SComplex.parts(o)
        return NotImplemented if p is None else SComplex(self.real - p[0], self.imag - p[1])

    def __rsub__(self, o):
        p = SComplex.parts(o)
        return NotImplemented if p is None else SComplex(p[0] - self.real, p[1] - self.imag)

    def __mul__(self, o):
        p = SComplex.parts(o)
        if p is None:
            return NotImplemented
        return SComplex(_times(self.real, p[0]) - _times(self.imag, p[1]), _times(self.real, p[1]) + _times(self.imag, p[0]))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SNum) or isnum(o):
            return SComplex(self.real / o, self.imag / o)
        raise Unsupported("complex division")

    def __rtruediv__(self, o):
        raise Unsupported("complex division")

    def __neg__(self):
        return SComplex(-self.real, -self.imag)

    def __pos__(self):
        return self

    def conjugate(self):
        return SComplex(self.real, -self.imag)

    def __abs__(self):
        return SNum(core.F_sqrt(to_real(lift(_times(self.real, self.real) + _times(self.imag, self.imag)))))

    def exp(self):
        if isinstance(self.real, SNum) or self.real != 0:
            raise Unsupported("exponential of a complex number")
        t = SNum(to_real(lift(self.imag)))
        return SComplex(t.cos(), t.sin())

    def __bool__(self):
        raise Unsupported("truth of a complex number")

    def __eq__(self, o):
        p = SComplex.parts(o)
        if p is None:
            return NotImplemented
        return SBool(z3.And(to_real(lift(self.real)) == to_real(lift(p[0])), to_real(lift(self.imag)) == to_real(lift(p[1]))))

    def __hash__(self):
        return id(self)


def _with_complex(name):
    old = getattr(SNum, name)

    def op(self, o):
        if isinstance(o, (complex, numpy.complexfloating)):
            return getattr(SComplex(self, 0), name)(o)
        return old(self, o)
    setattr(SNum, name, op)


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__"):
    _with_complex(_n)


class SBool(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().decide(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, numpy.bool_, SBool)):
            return SBool(self.t == zbool(o))
        if isnum(o):
            return SNum(lift(self)) == o
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

    def __hash__(self):
        raise Unsupported("hash of a symbolic Boolean")

    def _arith(name):
        def f(self, o):
            return getattr(SNum(lift(self)), name)(o)
        return f

    __add__ = _arith("__add__")
    __radd__ = _arith("__radd__")
    __mul__ = _arith("__mul__")
    __rmul__ = _arith("__rmul__")
    __sub__ = _arith("__sub__")
    __rsub__ = _arith("__rsub__")
    __lt__ = _arith("__lt__")
    __gt__ = _arith("__gt__")
    __le__ = _arith("__le__")
    __ge__ = _arith("__ge__")

    def __repr__(self):
        return "<%s>" % self.t


def zbool(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, numpy.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SNum):
        return x.t != 0
    if z3.is_bool(x):
        return x
    raise Unsupported("Boolean expected, got %s" % type(x).__name__)


# ---------------------------------------------------------------- text / bytes
class Atom(object):
    """Piece of text or bytes: kind in
    lit (payload str/bytes), str (z3 Str term), F (size, term: big-endian integer, two's complement),
    R8 (GDSII real of term), fmt (formatted value: key, value), any (opaque z3 Str)"""
    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        return "%s(%s%s)" % (self.kind, self.a if not z3.is_expr(self.a) else z3.simplify(self.a), "" if self.b is None else ",%s" % (self.b,))


class Piece(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Piece) and self.t.eq(o.t)


def fold_text(pieces):
    ts = [p.t if isinstance(p, Piece) else core.str_lit(p) for p in pieces]
    if not ts:
        return core.str_lit("")
    f = z3.Function("concat", core.StrSort, core.StrSort, core.StrSort)
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = f(t, r)
    return r


class SText(object):
    """Symbolic str or bytes as a sequence of nodes (see Seq nodes below) over Atoms."""
    __slots__ = ("nodes", "isbytes")

    def __init__(self, nodes, isbytes):
        self.nodes, self.isbytes = nodes, isbytes

    def _other(self, o):
        if isinstance(o, SText):
            if o.isbytes != self.isbytes:
                raise TypeError("mixing text and bytes")
            return o.nodes
        if isinstance(o, bytes if self.isbytes else str):
            return [It(Atom("lit", o))] if len(o) else []
        return None

    def __add__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        return SText(self.nodes + n, self.isbytes)

    def __radd__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        return SText(n + self.nodes, self.isbytes)

    def sym_len(self):
        return seq_len(self.nodes, atom_len)

    def encode(self, *a, **k):
        if self.isbytes:
            raise AttributeError("encode")
        return SText(map_atoms(self.nodes, lambda at: Atom("lit", at.a.encode("ascii")) if at.kind == "lit" else at), True)

    def decode(self, *a, **k):
        if not self.isbytes:
            raise AttributeError("decode")

        def f(at):
            if at.kind == "lit":
                return Atom("lit", at.a.decode("ascii"))
            if at.kind == "str":
                return at
            raise Unsupported("decode of binary data")
        return SText(map_atoms(self.nodes, f), False)

    def _term(self):
        n = self.nodes
        if len(n) == 0:
            return core.str_lit("")
        if len(n) == 1 and isinstance(n[0], It) and n[0].v.kind == "str":
            return n[0].v.a
        if all(isinstance(x, It) and x.v.kind == "lit" for x in n):
            s = "".join(x.v.a if isinstance(x.v.a, str) else x.v.a.decode("latin1") for x in n)
            return core.str_lit(s)
        return None

    def __eq__(self, o):
        if isinstance(o, (str, bytes)):
            if isinstance(o, bytes) != self.isbytes:
                return False
            o = SText([It(Atom("lit", o))] if len(o) else [], self.isbytes)
        if not isinstance(o, SText):
            return False
        a, b = self._term(), o._term()
        if a is None or b is None:
            x, y = self._pieces(), o._pieces()
            while x and y and x[0] == y[0]:
                x, y = x[1:], y[1:]
            while x and y and x[-1] == y[-1]:
                x, y = x[:-1], y[:-1]
            if not x and not y:
                return True
            a, b = fold_text(x), fold_text(y)
        return SBool(a == b)

    def _pieces(self):
        """literals and symbols of a composed string, compared by congruence of concatenation"""
        out = []
        for x in self.nodes:
            if not isinstance(x, It) or x.v.kind not in ("lit", "str"):
                raise Unsupported("comparison of composed strings")
            v = x.v.a
            if x.v.kind == "str":
                out.append(Piece(v))
            elif out and isinstance(out[-1], str):
                out[-1] += v if isinstance(v, str) else v.decode("latin1")
            else:
                out.append(v if isinstance(v, str) else v.decode("latin1"))
        return out

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        return bool(SNum(lift(self.sym_len())) > 0)

    def replace(self, old, new, *a):
        out = []
        for n in self.nodes:
            if not isinstance(n, It):
                raise Unsupported("replace in looped text")
            at = n.v
            if at.kind == "lit":
                out.append(It(Atom("lit", at.a.replace(old, new))))
            elif at.kind == "str":
                f = z3.Function("replace_%s_%s" % (old, new), core.StrSort, core.StrSort)
                out.append(It(Atom("str", f(at.a))))
            else:
                out.append(n)
        return SText(out, self.isbytes)

    def translate(self, table):
        key = repr(sorted(table.items()))
        out = []
        for n in self.nodes:
            if not isinstance(n, It) or n.v.kind not in ("lit", "str"):
                raise Unsupported("translate of composed text")
            if n.v.kind == "lit":
                out.append(It(Atom("lit", n.v.a.translate(table))))
            else:
                out.append(It(Atom("str", z3.Function("translate_" + key, core.StrSort, core.StrSort)(n.v.a))))
        return SText(out, self.isbytes)

    def format(self, *a, **k):
        raise Unsupported("format with symbolic template")

    def join(self, seq):
        raise Unsupported("join with symbolic separator")

    def __getitem__(self, k):
        if isinstance(k, slice) and not self.isbytes and k.step is None and k.start is None:
            # name[:-1] style operations on text with known literal tail
            if isinstance(k.stop, int) and k.stop < 0:
                cut = -k.stop
                nodes = list(self.nodes)
                while cut and nodes:
                    n = nodes[-1]
                    if not isinstance(n, It) or n.v.kind != "lit":
                        raise Unsupported("slice of symbolic text")
                    s = n.v.a
                    if len(s) > cut:
                        nodes[-1] = It(Atom("lit", s[:-cut]))
                        cut = 0
                    else:
                        cut -= len(s)
                        nodes.pop()
                return SText(nodes, self.isbytes)
        from . import models
        return models.text_getitem(self, k)

    def startswith(self, p):
        n = self.nodes
        if n and isinstance(n[0], It) and n[0].v.kind == "lit" and len(n[0].v.a) >= len(p):
            return n[0].v.a.startswith(p)
        raise Unsupported("startswith on symbolic text")

    def __repr__(self):
        return "SText(%s)" % self.nodes


def sstr(name_or_term):
    t = name_or_term if z3.is_expr(name_or_term) else z3.Const(name_or_term, core.StrSort)
    return SText([It(Atom("str", t))], False)


def atom_len(at):
    if at.kind == "lit":
        return len(at.a)
    if at.kind == "str":
        return SNum(core.F_strlen(at.a))
    if at.kind == "F":
        return at.a
    if at.kind == "R8":
        return 8
    raise Unsupported("length of formatted text")


# ---------------------------------------------------------------- sequences
class It(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "It(%r)" % (self.v,)


class Loop(object):
    """flat-map: body nodes for ivar = 0 .. n-1"""
    __slots__ = ("ivar", "n", "body", "outer", "derived")

    def __init__(self, ivar, n, body, outer=None, derived=False):
        # objects with uid <= outer occurring in the body are shared, others are one per iteration;
        # derived: a shifted view, whose elements are copies (must not be modified)
        self.ivar, self.n, self.body, self.outer, self.derived = ivar, n, body, outer, derived

    def shift(self, iv, n, idx):
        """nodes of this loop with index idx(iv), for iv < n"""
        return Loop(iv, n, self.subst([(self.ivar, idx)]).nodes(self.body), self.outer, True)

    def subst(self, pairs):
        return Subst(pairs, None if self.outer is None else (self.outer, lambda v: True))

    def inst(self, k, idx):
        """item k of the body at index idx"""
        v = self.body[k].v
        if hasattr(v, "at"):
            return v.at(self.ivar, idx)
        return self.subst([(self.ivar, idx)])(v)

    def __repr__(self):
        return "Loop(%s<%s: %r)" % (self.ivar, z3.simplify(self.n), self.body)


class If(object):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "If(%s, %r, %r)" % (self.c, self.a, self.b)


class While(object):
    """state vars svars, initial terms init, guard, next terms, body nodes (all in terms of svars)"""
    __slots__ = ("svars", "init", "guard", "next", "body")

    def __init__(self, svars, init, guard, nxt, body):
        self.svars, self.init, self.guard, self.next, self.body = svars, init, guard, nxt, body

    def __repr__(self):
        return "While(%s=%s; %s; %s: %r)" % (self.svars, self.init, self.guard, self.next, self.body)


def map_atoms(nodes, f):
    out = []
    for n in nodes:
        if isinstance(n, It):
            out.append(It(f(n.v)))
        elif isinstance(n, Loop):
            out.append(Loop(n.ivar, n.n, map_atoms(n.body, f), n.outer))
        elif isinstance(n, If):
            out.append(If(n.c, map_atoms(n.a, f), map_atoms(n.b, f)))
        elif isinstance(n, While):
            out.append(While(n.svars, n.init, n.guard, n.next, map_atoms(n.body, f)))
    return out


_idx_counter = [0]


def fresh_index(prefix="ix"):
    _idx_counter[0] += 1
    return z3.Int("%s!%d" % (prefix, _idx_counter[0]))


def is_index(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("ix!")


def index_vars(t):
    return [a for a in core.collect_apps([t]) if a.num_args() == 0 and is_index(a)]


# -------- aggregates (sum / min / max over loops): applications with a definition table
RED = {}  # function name -> (kind, params, n, ivar, body term)
_red_by_key = {}


def _canon(ts, bound):
    """rename index variables canonically; returns (key, free index vars)"""
    fv = []
    for t in ts:
        for v in index_vars(t):
            if v.get_id() != bound.get_id() and all(v.get_id() != w.get_id() for w in fv):
                fv.append(v)
    return fv


def reduce_term(kind, ivar, n, body):
    """Sum/Min/Max over ivar in 0..n-1 of body (z3 term)."""
    n = z3.simplify(n)
    body = z3.simplify(body)
    if kind == "sum":
        if not any(v.get_id() == ivar.get_id() for v in index_vars(body)):
            nn = z3.If(n >= 0, n, z3.IntVal(0))
            if E() is not None and E().valid(n >= 0):
                nn = n
            return (nn if body.sort() == I else z3.ToReal(nn)) * body
    cv = z3.Int("cv!0")
    fv = _canon([n, body], ivar)
    ren = [(ivar, cv)] + [(v, z3.Int("cf!%d" % k)) for k, v in enumerate(fv)]
    key = (kind, z3.substitute(n, *ren).sexpr(), z3.substitute(body, *ren).sexpr())
    if key not in _red_by_key:
        name = "%s!%d" % (kind, len(_red_by_key))
        fn = z3.Function(name, *([I] * len(fv) + [body.sort()]))
        params = [p for _, p in ren[1:]]
        _red_by_key[key] = fn
        RED[name] = (kind, params, z3.substitute(n, *ren), cv, z3.substitute(body, *ren))
    return _red_by_key[key](*fv)


def red_instance(app):
    """(kind, n, ivar, body) of an aggregate application"""
    kind, params, n, cv, body = RED[app.decl().name()]
    ren = list(zip(params, app.children()))
    iv = fresh_index()
    return kind, z3.substitute(n, *ren) if ren else n, iv, z3.substitute(z3.substitute(body, *ren) if ren else body, (cv, iv))


def seq_len(nodes, itemlen=None):
    tot = 0
    for n in nodes:
        if isinstance(n, It):
            tot = tot + (1 if itemlen is None else itemlen(n.v))
        elif isinstance(n, If):
            a, b = seq_len(n.a, itemlen), seq_len(n.b, itemlen)
            tot = tot + wrapc(z3.If(n.c, lift(a), lift(b)))
        elif isinstance(n, Loop):
            b = seq_len(n.body, itemlen)
            tot = tot + wrapc(reduce_term("sum", n.ivar, n.n, lift(b)))
        else:
            raise Unsupported("length of while-generated sequence")
    return tot


# -------- substitution through values
class Subst(object):
    """substitute index variables in arbitrary values; objects are cloned once per Subst."""

    def __init__(self, pairs, boundary=None):
        self.pairs = pairs
        self.memo = {}
        self.boundary = boundary  # uids <= boundary are outer objects: relink, don't clone

    def term(self, t):
        return z3.substitute(t, *self.pairs) if self.pairs else t

    def nodes(self, ns):
        out = []
        for n in ns:
            if isinstance(n, It):
                out.append(It(self(n.v)))
            elif isinstance(n, Loop):
                out.append(Loop(n.ivar, self.term(n.n), self.nodes(n.body), n.outer, n.derived))
            elif isinstance(n, If):
                out.append(If(self.term(n.c), self.nodes(n.a), self.nodes(n.b)))
            elif isinstance(n, While):
                out.append(While(n.svars, [self.term(x) for x in n.init], self.term(n.guard), [self.term(x) for x in n.next], self.nodes(n.body)))
            else:
                raise Unsupported("node")
        return out

    def __call__(self, v):
        if isinstance(v, Poison):
            return v
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, types.ModuleType, numpy.number, numpy.bool_, types.BuiltinFunctionType, types.FunctionType)):
            return v
        if isinstance(v, SNum):
            return SNum(self.term(v.t))
        if isinstance(v, SBool):
            return SBool(self.term(v.t))
        if isinstance(v, Atom):
            def g(x):
                return self.term(x) if z3.is_expr(x) else self(x)
            return Atom(v.kind, g(v.a), g(v.b) if v.b is not None else None)
        if isinstance(v, SText):
            return SText(self.nodes(v.nodes), v.isbytes)
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        if z3.is_expr(v):
            return self.term(v)
        if isinstance(v, numpy.ndarray) and v.dtype != object:
            return v
        k = id(v)
        if k in self.memo:
            return self.memo[k][0]
        eng = E()
        if self.boundary is not None:
            u = getattr(v, "_uid", None)
            if u is None:
                u = eng.uid_any(v)
            if u is None and id(v) in eng.past:
                u = eng.past[id(v)][1]
            if u is not None and u <= self.boundary[0] and self.boundary[1](v):
                o = eng.objs.get(u)
                if o is None:
                    raise Unsupported("lost track of an object")
                return o
        if isinstance(v, numpy.ndarray):
            out = numpy.empty(v.shape, dtype=object)
            self.memo[k] = (out, v)
            for ix in numpy.ndindex(v.shape):
                out[ix] = self(v[ix])
            return out
        if isinstance(v, SArr):
            f, s = v.f, self
            r = SArr(self(v.n), lambda j: s(f(j)), v.ncols)
            self.memo[k] = (r, v)
            return r
        if isinstance(v, VList):
            r = VList([])
            self.memo[k] = (r, v)
            r._nodes = self.nodes(v._nodes)
            return r
        if isinstance(v, SDict):
            r = SDict()
            self.memo[k] = (r, v)
            r._entries = [[self(a), self(b)] for a, b in v._entries]
            r._events = self.nodes(v._events)
            r._base = v._base
            return r
        if isinstance(v, SSet):
            r = SSet()
            self.memo[k] = (r, v)
            r._nodes = self.nodes(v._nodes)
            return r
        if isinstance(v, list):
            r = []
            self.memo[k] = (r, v)
            r.extend(self(x) for x in v)
            return r
        if isinstance(v, dict):
            r = {}
            self.memo[k] = (r, v)
            for a, b in v.items():
                r[self(a)] = self(b)
            return r
        if hasattr(v, "_subst"):
            r = v._subst(self)
            self.memo[k] = (r, v)
            return r
        return self.obj(v)

    def obj(self, v):
        """clone an instance, substituting its attributes"""
        from .interp import instance_attrs
        r = object.__new__(type(v))
        self.memo[id(v)] = (r, v)
        for a in instance_attrs(v):
            object.__setattr__(r, a, self(getattr(v, a)))
        gh = E().ghost_of(v)
        if gh is not None:
            E().set_ghost(r, {k: self(x) for k, x in gh.items()})
        return r


def instantiate(v, ivar, idx):
    if hasattr(v, "at"):
        return v.at(ivar, idx)
    return Subst([(ivar, idx)])(v)


class Mut(object):
    """Mutable heap object known to the engine (tracked through loops)."""
    _uid = None

    def _reg(self):
        e = E()
        if e is not None:
            self._uid = e.register(self)

    def _touch(self):
        """called before every mutation; returns the innermost list of deltas or None"""
        e = E()
        return e.note_mut(self) if e is not None else None

    def _read(self):
        e = E()
        if e is not None and e.loops:
            e.note_read_mut(self)


class VList(Mut):
    """Python list with symbolic parts."""

    def __init__(self, items=(), nodes=None):
        self._nodes = [It(x) for x in items] if nodes is None else nodes
        self._reg()

    # -- helpers
    @property
    def nodes(self):
        self._read()
        return self._nodes

    def concrete(self):
        """list of items if the length is concrete, else None"""
        ns = self.nodes
        if any(isinstance(n, If) for n in ns):
            ns = resolve_ifs(ns)
        if all(isinstance(n, It) for n in ns):
            return [n.v for n in ns]
        return None

    def sym_len(self):
        self._read_len()
        return seq_len(self._nodes)

    def _read_len(self):
        e = E()
        if e is not None and e.loops:
            e.note_read_mut(self, True)

    def __len__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported("native len() of a symbolic list")
        return len(c)

    def __bool__(self):
        return truth_len(self.sym_len())

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported("native iteration over a symbolic list")
        return iter(c)

    def __getitem__(self, k):
        e = E()
        if isinstance(k, SNum) and e is not None and e.loops and e.loops[-1].ivar is not None and k.t.eq(e.loops[-1].ivar):
            pt = e.loops[-1].points.get(self._uid)
            if pt is not None:
                return pt[1]
            return seq_get(self, self._nodes, k)  # this iteration's own element
        return seq_get(self, self.nodes, k)

    def __contains__(self, x):
        from . import models
        return models.contains(self, x)

    def __add__(self, o):
        if isinstance(o, (VList, list)):
            return VList(nodes=self.nodes + nodes_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return VList(nodes=nodes_of(o) + self.nodes)
        return NotImplemented

    def __mul__(self, k):
        if isinstance(k, int):
            return VList(nodes=list(self.nodes) * max(0, k))
        if isinstance(k, SNum) and k.t.sort() == I:
            iv = fresh_index()
            n = z3.If(k.t >= 0, k.t, z3.IntVal(0))
            if E().valid(k.t >= 0):
                n = k.t
            return VList(nodes=[Loop(iv, n, list(self.nodes))])
        return NotImplemented

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (VList, list)):
            return False
        a, b = self.concrete(), (o.concrete() if isinstance(o, VList) else o)
        if a is None or b is None:
            raise Unsupported("comparison of symbolic lists")
        if len(a) != len(b):
            return False
        return all(bool(x == y) for x, y in zip(a, b))

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    # -- mutation
    def append(self, x):
        d = self._touch()
        self._nodes = self._nodes + [It(x)]
        if d is not None:
            d.append(It(x))

    def extend(self, o):
        ns = nodes_of(o)
        d = self._touch()
        self._nodes = self._nodes + ns
        if d is not None:
            d.extend(ns)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def _replace(self, nodes):
        d = self._touch()
        if d is not None:
            E().mark_opaque(self, "list rewritten inside a symbolic loop")
        self._nodes = nodes

    def insert(self, i, x):
        if i == 0:
            return self._replace([It(x)] + self.nodes)
        c = self.concrete()
        if c is None or not isinstance(i, int):
            raise Unsupported("insert into symbolic list")
        c = list(c)
        c.insert(i, x)
        self._replace([It(v) for v in c])

    def pop(self, i=-1):
        ns = resolve_ifs(self.nodes, last=(i == -1))
        if i == -1 and ns and isinstance(ns[-1], It):
            v = ns[-1].v
            self._replace(ns[:-1])
            return v
        if i == -1 and ns and isinstance(ns[-1], Loop) and len(ns[-1].body) == 1 and isinstance(ns[-1].body[0], It):
            l = ns[-1]
            if E().decide(l.n > 0):
                v = l.inst(0, l.n - 1)
                self._replace(ns[:-1] + [Loop(l.ivar, l.n - 1, l.body, l.outer, l.derived)])
                return v
            self._replace(ns[:-1])
            return self.pop()
        if isinstance(i, int) and i >= 0 and len(ns) > i and all(isinstance(n, It) for n in ns[: i + 1]):
            v = ns[i].v
            self._replace(ns[:i] + ns[i + 1 :])
            return v
        c = self.concrete()
        if c is None or not isinstance(i, int):
            raise Unsupported("pop from symbolic list")
        c = list(c)
        v = c.pop(i)
        self._replace([It(x) for x in c])
        return v

    def remove(self, x):
        c = self.concrete()
        if c is None:
            raise Unsupported("remove from symbolic list")
        c = list(c)
        for k, v in enumerate(c):
            if v is x or bool(v == x):
                del c[k]
                self._replace([It(y) for y in c])
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._replace([])

    def reverse(self):
        self._replace(nodes_reversed(self.nodes))

    def copy(self):
        return VList(nodes=list(self.nodes))

    def index(self, x):
        c = self.concrete()
        if c is None:
            raise Unsupported("index in symbolic list")
        for k, v in enumerate(c):
            if v is x or bool(v == x):
                return k
        raise ValueError("not in list")

    def count(self, x):
        c = self.concrete()
        if c is None:
            raise Unsupported("count in symbolic list")
        return sum(1 for v in c if v is x or bool(v == x))

    def sort(self, key=None, reverse=False):
        from . import models
        self._replace(models.sorted_model(self, key=key, reverse=reverse)._nodes)

    def __delitem__(self, k):
        c = self.concrete()
        if c is None:
            raise Unsupported("del on symbolic list")
        c = list(c)
        del c[k]
        self._replace([It(x) for x in c])

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                return self._replace(nodes_of(v))
            c = self.concrete()
            if c is None:
                raise Unsupported("slice assignment to symbolic list")
            c = list(c)
            c[k] = list(v)
            return self._replace([It(x) for x in c])
        e = E()
        if isinstance(k, SNum):
            s = z3.simplify(k.t)
            if z3.is_int_value(s):
                k = s.as_long()
        # pointwise update at the loop variable of an enclosing loop
        if isinstance(k, SNum) and e.pointwise_set(self, k, v):
            return
        ns = self.nodes
        if isinstance(k, int):
            if k < 0 and all(isinstance(n, It) for n in ns[k:]) and len(ns) >= -k:
                ns = list(ns)
                lc = e.outer_ctx(self)
                if lc is not None:
                    # must touch only this iteration's own delta
                    d = lc.deltas.get(self._uid)
                    if d is not None and len(d[1]) >= -k and all(isinstance(n, It) for n in d[1][k:]):
                        for c2 in e.loops:
                            dd = c2.deltas.get(self._uid)
                            if dd is not None:
                                dd[1][k] = It(v)
                        ns[k] = It(v)
                        self._nodes = ns
                        return
                    raise Unsupported("item assignment to outer list in a symbolic loop")
                ns[k] = It(v)
                self._nodes = ns
                return
            if k >= 0 and len(ns) > k and all(isinstance(n, It) for n in ns[: k + 1]):
                ns = list(ns)
                ns[k] = It(v)
                return self._replace(ns)
        if isinstance(k, SNum):
            c = self.concrete()
            if c is not None:
                for j in range(len(c)):
                    if bool(k == j) or bool(k == j - len(c)):
                        return self.__setitem__(j, v)
                raise IndexError("list assignment index out of range")
            if len(ns) == 1 and isinstance(ns[0], Loop) and len(ns[0].body) == 1 and isinstance(ns[0].body[0], It):
                l = ns[0]
                kt = k.t
                if not e.valid(z3.And(kt >= 0, kt < l.n)):
                    raise Unsupported("symbolic index not known to be in range")
                old = l.body[0].v
                m = merge_values(l.ivar == kt, v, old)
                return self._replace([Loop(l.ivar, l.n, [It(m)], l.outer)])
        raise Unsupported("item assignment on symbolic list")

    def __repr__(self):
        return "VList(%r)" % (self._nodes,)


def truth_len(n):
    if isinstance(n, SNum):
        return E().decide(n.t > 0)
    return n > 0


def resolve_ifs(ns, last=False):
    out = []
    for n in ns:
        if isinstance(n, If):
            out.extend(resolve_ifs(n.a if E().decide(n.c) else n.b))
        else:
            out.append(n)
    return out


def nodes_of(x):
    """sequence nodes of any iterable value"""
    from . import models
    return models.iter_nodes(x)


def nodes_reversed(ns):
    out = []
    for n in reversed(ns):
        if isinstance(n, It):
            out.append(n)
        elif isinstance(n, If):
            out.append(If(n.c, nodes_reversed(n.a), nodes_reversed(n.b)))
        elif isinstance(n, Loop):
            iv = fresh_index()
            out.append(Loop(iv, n.n, n.subst([(n.ivar, n.n - 1 - iv)]).nodes(nodes_reversed(n.body)), n.outer, True))
        else:
            raise Unsupported("reverse of while sequence")
    return out


def elem(lst, node, idx):
    """element of a one-item Loop at idx; objects are cached for identity"""
    it = node.body[0]
    v = it.v
    if hasattr(v, "at"):
        return v.at(node.ivar, idx)
    if isinstance(v, (SNum, SBool, int, float, str, tuple, SText)) or v is None:
        return node.inst(0, idx)
    e = E()
    key = (id(it), z3.simplify(idx).sexpr())
    c = e.elem_cache
    if key not in c:
        o = node.inst(0, idx)
        e.adopt(o)
        c[key] = (o, it)
        e.elem_of[id(o)] = (lst, node, idx, o)
    return c[key][0]


def seq_get(owner, ns, k):
    e = E()
    if isinstance(k, slice):
        return seq_slice(ns, k)
    if isinstance(k, SNum):
        s = z3.simplify(k.t)
        if z3.is_int_value(s):
            k = s.as_long()
    if isinstance(k, (int, numpy.integer)) and not isinstance(k, bool):
        k = int(k)
        if k >= 0:
            pos = 0
            for j, n in enumerate(ns):
                if isinstance(n, It):
                    if pos == k:
                        return n.v
                    pos += 1
                elif isinstance(n, If):
                    return seq_get(owner, ns[:j] + (n.a if e.decide(n.c) else n.b) + ns[j + 1 :], k)
                elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], It):
                    if e.decide(n.n > k - pos):
                        return elem(owner, n, z3.IntVal(k - pos))
                    # fewer elements: continue after it with symbolic position
                    if e.decide(n.n <= 0):
                        continue
                    raise Unsupported("constant index past a symbolic segment")
                else:
                    raise Unsupported("index into nested symbolic sequence")
            raise IndexError("list index out of range")
        rest = -k
        for j in range(len(ns) - 1, -1, -1):
            n = ns[j]
            if isinstance(n, It):
                rest -= 1
                if rest == 0:
                    return n.v
            elif isinstance(n, If):
                return seq_get(owner, ns[:j] + (n.a if e.decide(n.c) else n.b) + ns[j + 1 :], k)
            elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], It):
                if e.decide(n.n >= rest):
                    return elem(owner, n, n.n - rest)
                if e.decide(n.n <= 0):
                    continue
                raise Unsupported("constant index past a symbolic segment")
            elif isinstance(n, Loop) and e.decide(n.n <= 0):
                continue
            elif isinstance(n, Loop) and rest == 1:
                # last element of a nested sequence
                last = n.subst([(n.ivar, n.n - 1)]).nodes(n.body)
                return seq_get(owner, last, -1)
            else:
                raise Unsupported("index into nested symbolic sequence")
        raise IndexError("list index out of range")
    if isinstance(k, SNum):
        if all(isinstance(n, It) for n in ns):
            for j, n in enumerate(ns):
                if bool(k == j):
                    return n.v
            for j, n in enumerate(ns):
                if bool(k == j - len(ns)):
                    return n.v
            raise IndexError("list index out of range")
        if len(ns) == 1 and isinstance(ns[0], Loop) and len(ns[0].body) == 1 and isinstance(ns[0].body[0], It):
            l = ns[0]
            if e.decide(z3.And(k.t >= 0, k.t < l.n)):
                return elem(owner, l, k.t)
            if e.decide(z3.And(k.t < 0, k.t >= -l.n)):
                return elem(owner, l, k.t + l.n)
            raise IndexError("list index out of range")
        # concatenation of one-item segments
        pos = z3.IntVal(0)
        for n in ns:
            if isinstance(n, It):
                if e.decide(k.t == pos):
                    return n.v
                pos = pos + 1
            elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], It):
                if e.decide(z3.And(k.t >= pos, k.t < pos + n.n)):
                    return elem(owner, n, k.t - pos)
                pos = pos + n.n
            else:
                raise Unsupported("symbolic index into nested sequence")
        raise IndexError("list index out of range")
    raise TypeError("list indices must be integers")


def seq_slice(ns, k):
    if k.step not in (None, 1, -1):
        raise Unsupported("slice step")
    if k.step == -1:
        if k.start is None and k.stop is None:
            return VList(nodes=nodes_reversed(ns))
        raise Unsupported("negative slice step with bounds")
    lo, hi = k.start, k.stop
    if (lo is None or lo == 0) and hi is None:
        return VList(nodes=list(ns))
    if all(isinstance(n, It) for n in ns) and not isinstance(lo, SNum) and not isinstance(hi, SNum):
        return VList([n.v for n in ns][k])
    if isinstance(lo, int) and lo > 0 and hi is None:
        # drop lo items from the front
        out = list(ns)
        d = lo
        while d and out:
            n = out[0]
            if isinstance(n, It):
                out.pop(0)
                d -= 1
            elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], It):
                if E().decide(n.n >= d):
                    iv = fresh_index()
                    out[0] = n.shift(iv, n.n - d, iv + d)
                    d = 0
                else:
                    raise Unsupported("slice past a symbolic segment")
            else:
                raise Unsupported("slice of nested sequence")
        return VList(nodes=out)
    if isinstance(lo, int) and lo < 0 and hi is None:
        # the last items
        tail = []
        for n in reversed(ns):
            if len(tail) == -lo:
                break
            if not isinstance(n, It):
                raise Unsupported("slice from the end past a symbolic segment")
            tail.insert(0, n)
        return VList(nodes=tail)
    if isinstance(hi, int) and hi < 0 and lo in (None, 0):
        out = list(ns)
        d = -hi
        while d and out:
            n = out[-1]
            if isinstance(n, It):
                out.pop()
                d -= 1
            elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], It):
                if E().decide(n.n >= d):
                    out[-1] = Loop(n.ivar, n.n - d, n.body, n.outer, n.derived)
                    d = 0
                elif E().decide(n.n <= 0):
                    out.pop()
                else:
                    raise Unsupported("slice past a symbolic segment")
            else:
                raise Unsupported("slice of nested sequence")
        return VList(nodes=out)
    if isinstance(lo, int) and isinstance(hi, int) and lo >= 0 and hi < 0:
        return seq_slice(seq_slice(ns, slice(lo, None))._nodes, slice(None, hi))
    if len(ns) == 1 and isinstance(ns[0], Loop) and len(ns[0].body) == 1 and isinstance(ns[0].body[0], It):
        l = ns[0]
        a = lift(lo if lo is not None else 0)
        b = lift(hi) if hi is not None else l.n
        if E().valid(z3.And(a >= 0, b >= a, b <= l.n)):
            iv = fresh_index()
            return VList(nodes=[l.shift(iv, b - a, iv + a)])
    a = node_boundary(ns, lo if lo is not None else 0)
    b = node_boundary(ns, hi) if hi is not None else len(ns)
    if a is not None and b is not None and a <= b:
        return VList(nodes=list(ns[a:b]))
    raise Unsupported("slice of symbolic sequence")


def node_boundary(ns, at):
    """number of leading nodes that hold exactly `at` items, None if no boundary is proved to be there"""
    at = lift(at)
    for k in range(len(ns) + 1):
        if E().valid(lift(seq_len(ns[:k])) == at):
            return k
    return None


def merge_values(c, a, b):
    """value equal to a if c else b; None if not expressible"""
    if a is b:
        return a
    if isnum(a) and isnum(b) or isinstance(a, (SNum, SBool)) and isinstance(b, (SNum, SBool)):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return SBool(z3.If(c, zbool(a), zbool(b)))
        x, y = lift(a), lift(b)
        if x.sort() != y.sort():
            x, y = to_real(x), to_real(y)
        return SNum(z3.If(c, x, y))
    if isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray) and a.shape == b.shape:
        out = numpy.empty(a.shape, dtype=object)
        for ix in numpy.ndindex(a.shape):
            out[ix] = merge_values(c, a[ix], b[ix])
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SArr) and isinstance(b, SArr):
        n = merge_values(c, a.n, b.n)
        return SArr(n, lambda j: merge_values(c, a.f(j), b.f(j)), a.ncols)
    if isinstance(a, (SText, str, bytes)) and isinstance(b, (SText, str, bytes)):
        isb = isinstance(a, bytes) or isinstance(a, SText) and a.isbytes
        if isb == (isinstance(b, bytes) or isinstance(b, SText) and b.isbytes):
            na, nb = text_nodes(a), text_nodes(b)
            if key_same(a, b):
                return a
            return SText([If(c, na, nb)], isb)
    plain = (str, bytes, type, types.FunctionType, types.ModuleType)
    if isinstance(a, plain) and isinstance(b, plain) and a == b:
        return a
    if key_same(a, b) and not is_object(a):
        return a
    if is_object(a) and is_object(b):
        return OneOf(c, a, b)
    if key_same(a, b):
        return a
    raise Unsupported("cannot merge values of types %s and %s" % (type(a).__name__, type(b).__name__))


class OneOf(object):
    """a if c else b, two objects with identity; decided when it is read"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _subst(self, s):
        return OneOf(s.term(self.c), s(self.a), s(self.b))


def is_object(v):
    """instance whose identity counts (or None or text standing in its place)"""
    if v is None or isinstance(v, OneOf):
        return True
    if isinstance(v, (str, SText)):
        return True
    return not isinstance(v, (SNum, SBool, SText, VList, SArr, SArrT, SDict, SSet, numpy.ndarray, tuple, list, dict, set, bytes, int, float, Poison, type)) and hasattr(type(v), "__module__") and type(v).__module__.split(".")[0] in ("gdspy", "contracts")


def text_nodes(x):
    if isinstance(x, SText):
        return x.nodes
    return [It(Atom("lit", x))] if len(x) else []


class Poison(object):
    """value of a variable after a loop or a merge which the engine cannot express; reading it is an error"""
    _engine_class_ = True

    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------- arrays with symbolic row count
class SArr(object):
    """numpy array with n rows (symbolic); f(idx term) -> row: scalar (1-D array, ncols None)
    or numpy object array of ncols entries."""
    __array_ufunc__ = None
    _tick = [0]

    def __init__(self, n, f, ncols=2):
        self.n = n  # python int or SNum
        self.f = f
        self.ncols = ncols

    @property
    def nt(self):
        return lift(self.n)

    @property
    def shape(self):
        return (self.n,) if self.ncols is None else (self.n, self.ncols)

    @property
    def ndim(self):
        return 1 if self.ncols is None else 2

    @property
    def size(self):
        return self.n if self.ncols is None else self.n * self.ncols

    @property
    def T(self):
        return SArrT(self)

    def transpose(self):
        return SArrT(self)

    @property
    def dtype(self):
        return numpy.dtype(float)

    def sym_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native len of symbolic array")

    def __bool__(self):
        raise ValueError("truth value of an array is ambiguous")

    def row(self, idx):
        return self.f(lift(idx))

    def _lift2(self, o, op):
        f = self.f
        if isinstance(o, SArr):
            if o.ncols != self.ncols and not (o.ncols == 1 or self.ncols == 1):
                if self.ncols is None or o.ncols is None:
                    raise Unsupported("broadcast of 1-D against 2-D symbolic arrays")
            if not E().valid(self.nt == o.nt):
                if E().valid(o.nt == 1) or E().valid(self.nt == 1):
                    raise Unsupported("broadcast over one row")
                raise Unsupported("arrays of different symbolic length")
            g = o.f
            nc = self.ncols if self.ncols != 1 else o.ncols
            if self.ncols is None or o.ncols is None:
                nc = None
            return SArr(self.n, lambda j: op(f(j), g(j)), nc)
        if isinstance(o, (VList, list, tuple)):
            o = numpy.array(list(o), dtype=object) if any(isinstance(x, SNum) for x in o) else numpy.array(list(o))
        if isinstance(o, numpy.ndarray):
            if o.ndim == 0:
                o = o.item()
            elif o.ndim == 1:
                if self.ncols is None:
                    if o.shape[0] == 1:
                        o = o[0]
                    else:
                        raise Unsupported("broadcast")
                elif o.shape[0] not in (self.ncols, 1) and self.ncols != 1:
                    raise ValueError("operands could not be broadcast together")
            elif o.ndim == 2 and o.shape[0] == 1:
                o = o[0]
            else:
                raise Unsupported("broadcast of array operand")
        nc = self.ncols
        if isinstance(o, numpy.ndarray) and nc == 1:
            nc = o.shape[0]
        return SArr(self.n, lambda j: op(f(j), o), nc)

    def __add__(self, o): return self._lift2(o, lambda a, b: a + b)
    def __radd__(self, o): return self._lift2(o, lambda a, b: b + a)
    def __sub__(self, o): return self._lift2(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._lift2(o, lambda a, b: b - a)
    def __mul__(self, o): return self._lift2(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._lift2(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._lift2(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._lift2(o, lambda a, b: b / a)
    def __pow__(self, o): return self._lift2(o, lambda a, b: a ** b)
    def __mod__(self, o): return self._lift2(o, lambda a, b: a % b)
    def __lt__(self, o): return self._lift2(o, lambda a, b: a < b)
    def __gt__(self, o): return self._lift2(o, lambda a, b: a > b)
    def __le__(self, o): return self._lift2(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._lift2(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._lift2(o, lambda a, b: a == b)
    def __ne__(self, o): return self._lift2(o, lambda a, b: a != b)
    __hash__ = None

    def __neg__(self):
        f = self.f
        return SArr(self.n, lambda j: -f(j), self.ncols)

    def __abs__(self):
        f = self.f
        return SArr(self.n, lambda j: abs(f(j)), self.ncols)

    def mapped(self, g, ncols="same"):
        f = self.f
        return SArr(self.n, lambda j: g(f(j)), self.ncols if ncols == "same" else ncols)

    def copy(self):
        return SArr(self.n, self.f, self.ncols)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.f(z3.IntVal(k)) for k in range(self.n)])
        raise Unsupported("native iteration over symbolic array")

    # in-place operators rebind through mutation of this object (numpy semantics)
    def _inplace(self, r):
        E().array_mutation(self)
        self.f, self.n, self.ncols = r.f, r.n, r.ncols
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def _rows(self, k):
        """row selector slice -> SArr"""
        f, n = self.f, self.n
        st = k.step
        if st not in (None, 1, -1):
            raise Unsupported("slice step")
        if st == -1:
            if k.start is None and k.stop is None:
                nt = self.nt
                return SArr(n, lambda j: f(nt - 1 - j), self.ncols)
            raise Unsupported("negative step with bounds")
        lo, hi = k.start, k.stop
        nt = self.nt
        e = E()

        def norm(b, dflt):
            if b is None:
                return dflt
            t = lift(b)
            s = z3.simplify(t)
            if z3.is_int_value(s):
                v = s.as_long()
                if v < 0:
                    return z3.If(nt + v < 0, z3.IntVal(0), nt + v) if not e.valid(nt + v >= 0) else nt + v
                return t if e.valid(nt >= v) else z3.If(nt < v, nt, t)
            if e.valid(z3.And(t >= 0, t <= nt)):
                return t
            return z3.If(t < 0, z3.If(nt + t < 0, z3.IntVal(0), nt + t), z3.If(t > nt, nt, t))
        a, b = norm(lo, z3.IntVal(0)), norm(hi, nt)
        ln = b - a
        if not e.valid(ln >= 0):
            ln = z3.If(ln < 0, z3.IntVal(0), ln)
        ln = z3.simplify(ln)
        m = wrapc(ln)
        sa = z3.simplify(a)
        if z3.is_int_value(sa) and sa.as_long() == 0:
            return SArr(m, f, self.ncols)
        return SArr(m, lambda j: f(j + a), self.ncols)

    def _idx(self, k):
        e = E()
        t = lift(k)
        s = z3.simplify(t)
        nt = self.nt
        if z3.is_int_value(s):
            v = s.as_long()
            if v < 0:
                if not e.decide(nt + v >= 0):
                    raise IndexError("index out of bounds")
                return nt + v
            if not e.decide(nt > v):
                raise IndexError("index out of bounds")
            return s
        if e.decide(z3.And(t >= 0, t < nt)):
            return t
        if e.decide(z3.And(t < 0, t >= -nt)):
            return t + nt
        raise IndexError("index out of bounds")

    def __getitem__(self, k):
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, slice):
                base = self if (r.start is None and r.stop is None and r.step is None) else self._rows(r)
                f = base.f
                if isinstance(c, slice):
                    w = len(range(*c.indices(self.ncols)))
                    return SArr(base.n, lambda j: f(j)[c], w)
                if c is None:
                    return SArr(base.n, lambda j: numpy.array([f(j)], dtype=object), 1)
                return SArr(base.n, lambda j: f(j)[c], None)
            if r is Ellipsis:
                return self[(slice(None), c)]
            return self.f(self._idx(r))[c]
        if isinstance(k, slice):
            return self._rows(k)
        if isinstance(k, (int, numpy.integer, SNum)) and not isinstance(k, bool):
            return self.f(self._idx(k))
        raise Unsupported("array index %s" % type(k).__name__)

    def __setitem__(self, k, v):
        e = E()
        e.array_mutation(self)
        old = self.f
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, slice) and r.start is None and r.stop is None and r.step is None and isinstance(c, int):
                g = (lambda j: v.f(j)) if isinstance(v, SArr) else (lambda j: v)

                def nf(j):
                    row = numpy.array(list(old(j)), dtype=object)
                    row[c] = g(j)
                    return row
                self.f = nf
                return
            if isinstance(c, int) and not isinstance(r, slice):
                t = self._idx(r)

                def nf2(j):
                    row = numpy.array(list(old(j)), dtype=object)
                    row[c] = merge_values(z3.simplify(j == t), v, row[c])
                    return row
                self.f = nf2
                return
            raise Unsupported("array assignment")
        if isinstance(k, slice):
            sel = self._rows(k)
            lo = k.start
            a = z3.simplify(lift(lo) if lo is not None else z3.IntVal(0))
            if z3.is_int_value(a) and a.as_long() < 0:
                a = self.nt + a
            m = lift(sel.n)
            if isinstance(v, SArr):
                if not e.valid(v.nt == m):
                    raise Unsupported("slice assignment of different length")
                g = v.f
                full = k.start is None and k.stop is None
                self.f = (lambda j: g(j)) if full else (lambda j: ite_row(z3.And(j >= a, j < a + m), lambda: g(j - a), lambda: old(j)))
            else:
                self.f = lambda j: ite_row(z3.And(j >= a, j < a + m), lambda: bcast(v, self.ncols), lambda: old(j))
            return
        t = self._idx(k)
        self.f = lambda j: ite_row(j == t, lambda: bcast(v, self.ncols), lambda: old(j))

    # reductions
    def _red(self, kind, axis=None):
        j = fresh_index()
        row = self.f(j)
        if not (E().valid(self.nt > 0)) and kind in ("min", "max"):
            if not E().decide(self.nt > 0):
                raise ValueError("zero-size array to reduction operation")
        if self.ncols is None:
            return wrapc(reduce_term(kind, j, self.nt, lift(row)))
        if axis == 0:
            return numpy.array([wrapc(reduce_term(kind, j, self.nt, lift(x))) for x in row], dtype=object)
        if axis in (1, -1):
            f = self.f
            if kind == "sum":
                return SArr(self.n, lambda i: sum(list(f(i)[1:]), f(i)[0]), None)
            if kind == "min":
                return SArr(self.n, lambda i: fold_minmax(list(f(i)), True), None)
            return SArr(self.n, lambda i: fold_minmax(list(f(i)), False), None)
        if axis is None:
            parts = [wrapc(reduce_term(kind, j, self.nt, lift(x))) for x in row]
            if kind == "sum":
                return sum(parts[1:], parts[0])
            return fold_minmax(parts, kind == "min")
        raise Unsupported("reduction axis")

    def min(self, axis=None): return self._red("min", axis)
    def max(self, axis=None): return self._red("max", axis)
    def sum(self, axis=None): return self._red("sum", axis)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, VList)):
            shape = tuple(shape[0])
        from . import models
        return models.arr_reshape(self, shape)

    def astype(self, dt, **k):
        from . import models
        return models.arr_astype(self, dt)

    def tobytes(self):
        from . import models
        return models.arr_tobytes(self)

    def tolist(self):
        iv = fresh_index()
        r = self.f(iv)
        return VList(nodes=[Loop(iv, self.nt, [It(r if self.ncols is None else VList(list(r)))])])

    def dot(self, o):
        f = self.f
        if isinstance(o, numpy.ndarray) and self.ncols is not None:
            return SArr(self.n, lambda j: numpy.dot(f(j), o), None if o.ndim == 1 else o.shape[1])
        raise Unsupported("dot")

    def round(self, d=0):
        from . import models
        return models.np_round(self)

    def flatten(self):
        return self.reshape((self.size,))

    ravel = flatten

    def all(self, axis=None):
        raise Unsupported("all() of symbolic array")

    def any(self, axis=None):
        raise Unsupported("any() of symbolic array")

    def __repr__(self):
        return "SArr(n=%s, row(j)=%s)" % (self.n, self.f(z3.Int("j")))


class SArrT(object):
    """transpose view of an N x k symbolic array"""
    __array_ufunc__ = None

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return (self.a.ncols, self.a.n)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.a[:, k]
        raise Unsupported("index of transposed array")

    @property
    def T(self):
        return self.a

    def transpose(self):
        return self.a

    def sym_len(self):
        return self.a.ncols

    def min(self, axis=None):
        return self.a.min(None if axis is None else 1 - axis)

    def max(self, axis=None):
        return self.a.max(None if axis is None else 1 - axis)


def bcast(v, ncols):
    if ncols is None:
        return v
    if isinstance(v, (VList, list, tuple)):
        return numpy.array(list(v), dtype=object)
    if isinstance(v, numpy.ndarray):
        return v
    return numpy.array([v] * ncols, dtype=object)


def ite_row(c, a, b):
    s = z3.simplify(c)
    if z3.is_true(s):
        return a()
    if z3.is_false(s):
        return b()
    x, y = a(), b()
    return ite_val(s, x, y)


def ite_val(c, x, y):
    if isinstance(x, numpy.ndarray) or isinstance(y, numpy.ndarray):
        x = x if isinstance(x, numpy.ndarray) else bcast(x, len(y))
        y = y if isinstance(y, numpy.ndarray) else bcast(y, len(x))
        out = numpy.empty(x.shape, dtype=object)
        for i in range(len(x)):
            out[i] = ite_val(c, x[i], y[i])
        return out
    return merge_values(c, x, y)


def fold_minmax(parts, mn):
    r = parts[0]
    for p in parts[1:]:
        a, b = lift(r), lift(p)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        r = SNum(z3.If(a <= b, a, b) if mn else z3.If(a >= b, a, b))
    return r


# ---------------------------------------------------------------- dictionaries and sets
class SDict(Mut):
    """Python dict. Concrete part: _entries [[key, value]...] in insertion order; symbolic part:
    _events: nodes of ('ins', key, nodes) / ('set', key, value) produced by symbolic loops
    (group-by semantics), or _base: uninterpreted content."""

    def __init__(self, entries=()):
        self._entries = [[k, v] for k, v in entries]
        self._events = []
        self._base = None
        self._reg()

    def _sym(self):
        return bool(self._events) or self._base is not None

    def _find(self, key, read=True):
        if read and not (self._base is None and self._grouping() is not None):
            self._read()
        for ent in self._entries:
            if key_eq(ent[0], key):
                return ent
        return None

    def _grouping(self):
        """inside a symbolic loop on an outer dict: membership is unknown"""
        e = E()
        lc = e.outer_ctx(self)
        return lc

    def __contains__(self, key):
        raise Unsupported("native membership test on tracked dict")

    def sym_contains(self, key):
        ent = self._find(key)
        if ent is not None:
            return True
        if self._base is not None:
            return self._base.contains(self, key)
        if self._events or self._grouping() is not None and E().ctx_writes_dict(self):
            b = E().fresh("member", B)
            E().members[b.decl().name()] = (self._uid, key)
            return E().decide(b)
        return False

    def get(self, key, default=None):
        ent = self._find(key)
        if ent is not None:
            return ent[1]
        if self._base is not None:
            return self._base.get(self, key, default)
        if self._sym() or self._grouping() is not None:
            raise Unsupported("get on grouped dict")
        return default

    def __getitem__(self, key):
        ent = self._find(key)
        if ent is not None:
            return ent[1]
        if self._base is not None:
            return self._base.getitem(self, key)
        if self._events or self._grouping() is not None:
            return Group(self, key)
        raise KeyError(key)

    def __setitem__(self, key, value):
        e = E()
        lc = e.outer_ctx(self)
        if lc is not None or self._events:
            if isinstance(value, (Group, _GroupDone, _GroupSum)):
                if value.d is not self or not key_same(value.key, key):
                    raise Unsupported("value of another group stored")
                if isinstance(value, _GroupSum):
                    self._event(("add", key, value.o))
                return
            if isinstance(value, (VList, list)):
                self._event(("new", key, nodes_of(value)))
            else:
                self._event(("set", key, value))
            return
        ent = self._find(key)
        self._touch()
        if ent is not None:
            ent[1] = value
        else:
            self._entries = self._entries + [[key, value]]

    def _event(self, ev):
        d = self._touch()
        self._events = self._events + [It(ev)]
        if d is not None:
            d.append(It(ev))

    def setdefault(self, key, default=None):
        if E().outer_ctx(self) is not None or self._events:
            return Group(self, key)
        ent = self._find(key)
        if ent is not None:
            return ent[1]
        self._touch()
        self._entries = self._entries + [[key, default]]
        return default

    def pop(self, key, *d):
        ent = self._find(key)
        if ent is None:
            if self._sym():
                raise Unsupported("pop on grouped dict")
            if d:
                return d[0]
            raise KeyError(key)
        if E().outer_ctx(self) is not None:
            raise Unsupported("pop from outer dict in symbolic loop")
        self._touch()
        self._entries = [x for x in self._entries if x is not ent]
        return ent[1]

    def __delitem__(self, key):
        ent = self._find(key)
        if ent is None:
            raise KeyError(key)
        if E().outer_ctx(self) is not None:
            raise Unsupported("del on outer dict in symbolic loop")
        self._touch()
        self._entries = [x for x in self._entries if x is not ent]

    def update(self, o=(), **k):
        if isinstance(o, (SDict, dict)):
            for a, b in o.items():
                self[a] = b
        else:
            for a, b in o:
                self[a] = b
        for a, b in k.items():
            self[a] = b

    def clear(self):
        self._touch()
        self._entries, self._events, self._base = [], [], None

    def copy(self):
        r = SDict([(k, v) for k, v in self._entries])
        r._events = list(self._events)
        r._base = self._base
        return r

    def _conc(self):
        self._read()
        if self._sym():
            raise Unsupported("iteration over symbolic dict")
        return self._entries

    def keys(self):
        return [k for k, _ in self._conc()]

    def values(self):
        return [v for _, v in self._conc()]

    def items(self):
        return [(k, v) for k, v in self._conc()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._conc())

    def sym_len(self):
        if self._base is not None:
            return self._base.length(self)
        if self._events:
            raise Unsupported("len of grouped dict")
        return len(self._entries)

    def __bool__(self):
        return truth_len(self.sym_len())

    __hash__ = None

    def __repr__(self):
        return "SDict(%r, %r)" % (self._entries, self._events)


def key_same(a, b):
    if a is b:
        return True
    from .loops import same
    return same(a, b)


def key_eq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(key_eq(x, y) for x, y in zip(a, b))
    r = a == b
    if isinstance(r, numpy.ndarray):
        raise Unsupported("array as key")
    return bool(r)


class Group(object):
    """d[key] of a grouped dict inside a symbolic loop: only insertion is allowed."""

    def __init__(self, d, key):
        self.d, self.key = d, key

    def append(self, x):
        self.d._event(("ins", self.key, [It(x)]))

    def extend(self, o):
        self.d._event(("ins", self.key, nodes_of(o)))

    def __iadd__(self, o):
        if isinstance(o, (VList, list)):
            self.extend(o)
            return self
        if isnum(o):
            self.d._event(("add", self.key, o))
            return _GroupDone(self.d, self.key)
        raise Unsupported("in-place update of group")

    def __add__(self, o):
        if isnum(o):
            return _GroupSum(self.d, self.key, o)
        raise Unsupported("group value used as operand")

    def __radd__(self, o):
        return self.__add__(o)


class _GroupDone(object):
    def __init__(self, d, key):
        self.d, self.key = d, key


class _GroupSum(object):
    def __init__(self, d, key, o):
        self.d, self.key, self.o = d, key, o


class SSet(Mut):
    def __init__(self, nodes=()):
        self._nodes = list(nodes)
        self._reg()

    @property
    def nodes(self):
        self._read()
        return self._nodes

    def add(self, x):
        d = self._touch()
        self._nodes = self._nodes + [It(x)]
        if d is not None:
            d.append(It(x))

    def update(self, *os):
        for o in os:
            # only membership matters: repeated members need not be removed
            ns = list(o.nodes) if isinstance(o, SSet) else nodes_of(o)
            d = self._touch()
            self._nodes = self._nodes + ns
            if d is not None:
                d.extend(ns)

    def concrete(self):
        ns = self.nodes
        if any(isinstance(n, If) for n in ns):
            ns = resolve_ifs(ns)
        if not all(isinstance(n, It) for n in ns):
            return None
        out = []
        for n in ns:
            if not any(x is n.v or key_eq(x, n.v) for x in out):
                out.append(n.v)
        return out

    def _without(self, gone):
        c = self.concrete()
        if c is None:
            raise Unsupported("set difference")
        return [It(x) for x in c if not any(x is y or key_eq(x, y) for y in gone)]

    def _assign(self, ns):
        if E().outer_ctx(self) is not None:
            raise Unsupported("removal from an outer set in a symbolic loop")
        self._touch()
        self._nodes = ns

    def _members(self, o):
        c = o.concrete() if isinstance(o, (SSet, VList)) else list(o)
        if c is None:
            raise Unsupported("set difference")
        return c

    def difference_update(self, *os):
        for o in os:
            self._assign(self._without(self._members(o)))

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __sub__(self, o):
        return SSet(self._without(self._members(o)))

    difference = __sub__

    def __and__(self, o):
        m = self._members(o)
        return SSet([It(x) for x in self._members(self) if any(x is y or key_eq(x, y) for y in m)])

    def discard(self, x):
        self._assign(self._without([x]))

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self._assign([])

    def copy(self):
        return SSet(self.nodes)

    def __contains__(self, x):
        from . import models
        return models.contains(self, x)

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported("iteration over symbolic set")
        return iter(c)

    def __len__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported("len of symbolic set")
        return len(c)

    def sym_len(self):
        return len(self)

    def __bool__(self):
        return truth_len(seq_len(self.nodes))

    def __or__(self, o):
        return SSet(self.nodes + nodes_of(o))

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return "SSet(%r)" % (self._nodes,)


class SFile(Mut):
    """output file: content nodes"""

    def __init__(self, isbytes=True):
        self._nodes = []
        self.isbytes = isbytes
        self.closed = False
        self._reg()

    def write(self, x):
        if isinstance(x, (bytes, str)):
            if isinstance(x, bytes) != self.isbytes:
                raise TypeError("wrong string type for file")
            ns = [It(Atom("lit", x))] if len(x) else []
        elif isinstance(x, SText):
            if x.isbytes != self.isbytes:
                raise TypeError("wrong string type for file")
            ns = x.nodes
        else:
            raise TypeError("write() argument")
        d = self._touch()
        self._nodes = self._nodes + ns
        if d is not None:
            d.extend(ns)

    def close(self):
        self._touch()
        self.closed = True

    def _subst(self, s):
        r = SFile.__new__(SFile)
        r._nodes, r.isbytes, r.closed = s.nodes(self._nodes), self.isbytes, self.closed
        return r


def split_field(t, n, k):
    """big-endian field of n bytes -> (leading k bytes, remaining n-k bytes)"""
    hi = z3.simplify((t / (256 ** (n - k))) % (256 ** k))
    return hi, t
