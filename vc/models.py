"""Models of Python built-ins, numpy, struct, copy ... on symbolic values.

These are the trusted contracts of the libraries the verified code calls.  Everything else is
executed natively, and only with concrete arguments.
"""
import ast
import builtins
import copy as _copy
import datetime as _datetime
import itertools
import math
import numbers
import operator
import string
import struct
import types
import warnings
import numpy
import z3
from . import core
from .core import E, Unsupported, PathEnd
from . import values as V
from .values import *
from .interp import I_, MODELS, METHOD_MODELS, VTYPES, is_sym, concretize, IFunc, truth, interp_method, instance_attrs, SuperProxy
from . import interp


def model(*fns):
    def deco(m):
        for f in fns:
            MODELS[id(f)] = (f, m)
        m._engine_ = True
        return m
    return deco


def method_model(ty, name):
    def deco(m):
        METHOD_MODELS[(ty, name)] = m
        m._engine_ = True
        return m
    return deco


def sym(*xs):
    return any(is_sym(x) for x in xs)


# ---------------------------------------------------------------- lazily indexed tuples
class LazyTuple(object):
    """element of zip/enumerate over a symbolic sequence: parts are ('idx', offset) or (owner, node)"""
    __slots__ = ("parts", "iv")

    def __init__(self, parts, iv):
        self.parts, self.iv = parts, iv

    def at(self, ivar, idx):
        out = []
        idx = z3.simplify(z3.substitute(self.iv, (ivar, idx)))
        for p in self.parts:
            if p[0] == "idx":
                out.append(wrapc(idx + p[1]))
            else:
                out.append(V.elem(p[0], p[1], idx))
        return tuple(out)

    def _subst(self, s):
        parts = []
        for p in self.parts:
            if p[0] == "idx":
                parts.append(("idx", s.term(lift(p[1]))))
            else:
                nd = p[1]
                b = s if nd.outer is None else V.Subst(s.pairs, (nd.outer, lambda v: True))
                parts.append((None, Loop(nd.ivar, s.term(nd.n), b.nodes(nd.body), nd.outer, True)))
        return LazyTuple(parts, s.term(self.iv))


def arr_nodes(a):
    iv = V.fresh_index()
    return [Loop(iv, a.nt, [It(ArrRow(a, iv))])]


class ArrRow(object):
    """row of a symbolic array at an index (built when read, so that later writes are seen)"""
    __slots__ = ("f", "iv")

    def __init__(self, a, iv):
        self.f, self.iv = (a.f if isinstance(a, SArr) else a), iv

    def at(self, ivar, idx):
        r = self.f(z3.substitute(self.iv, (ivar, idx)))
        return r

    def _subst(self, s):
        f = self.f
        r = ArrRow(lambda j: s(f(j)), s.term(self.iv))
        return r


def iter_nodes(x):
    if isinstance(x, (VList, SSet)):
        ns = x.nodes
        if isinstance(x, SSet):
            c = x.concrete()
            if c is not None:
                return [It(v) for v in c]
            raise Unsupported("iteration over a symbolic set")
        return ns
    if isinstance(x, (list, tuple, range, set, frozenset)):
        return [It(v) for v in x]
    if isinstance(x, SArr):
        if isinstance(x.n, int):
            return [It(x.f(z3.IntVal(k))) for k in range(x.n)]
        return arr_nodes(x)
    if isinstance(x, SArrT):
        return [It(x[k]) for k in range(x.a.ncols)]
    if isinstance(x, numpy.ndarray):
        return [It(v) for v in x]
    if isinstance(x, SDict):
        if x._base is not None:
            return x._base.keys(x)
        return [It(k) for k in x.keys()]
    if isinstance(x, dict):
        return [It(k) for k in x]
    if isinstance(x, (str, bytes)):
        return [It(c) for c in x]
    if isinstance(x, SText):
        raise Unsupported("iteration over symbolic text")
    if isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))):
        return [It(v) for v in x]
    if isinstance(x, (itertools.chain, map, filter, zip, enumerate, types.GeneratorType)) or hasattr(x, "__next__"):
        return [It(v) for v in x]
    if getattr(type(x), "_engine_class_", False) and hasattr(x, "nodes"):
        return x.nodes()
    if interp_method(x, "__iter__"):
        return iter_nodes(I_.call(type(x).__iter__, [x], {}))
    if interp_method(x, "__getitem__"):
        raise Unsupported("iteration by index protocol")
    raise TypeError("'%s' object is not iterable" % type(x).__name__)


def single(n):
    return isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], It)


@model(builtins.zip)
def m_zip(*its):
    seqs = []
    for x in its:
        seqs.append((x if isinstance(x, VList) else None, iter_nodes(x)))
    out = []
    pos = [list(ns) for _, ns in seqs]
    owners = [o for o, _ in seqs]
    while True:
        pos = [resolve_head(p) for p in pos]
        if any(not p for p in pos):
            break
        heads = [p[0] for p in pos]
        if all(isinstance(h, It) for h in heads):
            out.append(It(tuple(h.v for h in heads)))
            pos = [p[1:] for p in pos]
            continue
        if all(single(h) for h in heads):
            n = heads[0].n
            m = n
            same = all(E().valid(h.n == n) for h in heads[1:])
            if not same:
                # the shortest decides
                for h in heads[1:]:
                    if E().decide(h.n < m):
                        m = h.n
                if any(len(p) > 1 for p in pos):
                    raise Unsupported("zip of unaligned segments")
            iv = V.fresh_index()
            out.append(Loop(iv, m, [It(LazyTuple([(o, h) for o, h in zip(owners, heads)], iv))]))
            pos = [p[1:] for p in pos]
            continue
        if any(isinstance(h, It) for h in heads) and all(isinstance(h, It) or single(h) for h in heads):
            # split one element off the symbolic segments
            nh = []
            done = False
            for k, (o, h) in enumerate(zip(owners, heads)):
                if isinstance(h, It):
                    nh.append(h.v)
                else:
                    if not E().decide(h.n > 0):
                        pos[k] = pos[k][1:]
                        done = True
                        break
                    nh.append(V.elem(o, h, z3.IntVal(0)))
            if done:
                continue
            out.append(It(tuple(nh)))
            for k, h in enumerate(heads):
                if isinstance(h, It):
                    pos[k] = pos[k][1:]
                else:
                    iv = V.fresh_index()
                    pos[k] = [h.shift(iv, z3.simplify(h.n - 1), iv + 1)] + pos[k][1:]
                    owners[k] = None
            continue
        raise Unsupported("zip of nested symbolic sequences")
    return VList(nodes=out)


def resolve_head(p):
    while p and (isinstance(p[0], If) or isinstance(p[0], Loop) and z3.is_int_value(z3.simplify(p[0].n)) and z3.simplify(p[0].n).as_long() <= 0):
        if isinstance(p[0], If):
            p = list(p[0].a if E().decide(p[0].c) else p[0].b) + p[1:]
        else:
            p = p[1:]
    return p


@model(builtins.enumerate)
def m_enumerate(it, start=0):
    ns = iter_nodes(it)
    owner = it if isinstance(it, VList) else None
    out = []
    pos = lift(start)
    for n in resolve_ifs(ns):
        if isinstance(n, It):
            out.append(It((wrapc(pos), n.v)))
            pos = z3.simplify(pos + 1)
        elif single(n):
            iv = V.fresh_index()
            out.append(Loop(iv, n.n, [It(LazyTuple([("idx", pos), (owner, n)], iv))]))
            pos = z3.simplify(pos + z3.If(n.n >= 0, n.n, z3.IntVal(0)) if not E().valid(n.n >= 0) else pos + n.n)
        else:
            raise Unsupported("enumerate over nested sequence")
    return VList(nodes=out)


@model(builtins.reversed)
def m_reversed(x):
    return VList(nodes=nodes_reversed(iter_nodes(x)))


@model(builtins.range)
def m_range(*a):
    a = [interp.unindex(x) for x in a]
    if not any(isinstance(x, SNum) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range with symbolic step")
    lo, hi = lift(lo), lift(hi)
    n = hi - lo if st == 1 else ((hi - lo + (st - 1)) / st if st > 0 else (lo - hi + (-st - 1)) / (-st))
    n = z3.simplify(n)
    if not E().valid(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    s = z3.simplify(n)
    if z3.is_int_value(s):
        if s.as_long() > 200:
            iv = V.fresh_index()
            return VList(nodes=[Loop(iv, s, [It(wrapc(lo + st * iv))])])
        return VList([wrapc(lo + st * k) for k in range(s.as_long())])
    iv = V.fresh_index()
    return VList(nodes=[Loop(iv, n, [It(SNum(z3.simplify(lo + st * iv)))])])


@model(itertools.chain)
def m_chain(*its):
    out = []
    for x in its:
        out.extend(iter_nodes(x))
    return ChainList(out, its)


def ChainList(nodes, its):
    r = VList(nodes=nodes)
    # identity of elements goes through the node, which is shared with the original lists
    return r


@method_model(type, "from_iterable")
def m_chain_from(cls, it):
    res = VList()
    I_.iterate(("chain", id(it)), it, lambda v: res.extend(v))
    return res


@model(builtins.len)
def m_len(x):
    if isinstance(x, (VList, SDict, SText, SSet)):
        r = x.sym_len()
        return wrapc(lift(r)) if isinstance(r, SNum) else r
    if isinstance(x, SArr):
        return x.n
    if isinstance(x, SArrT):
        return x.a.ncols
    if interp_method(x, "__len__"):
        return I_.call(type(x).__len__, [x], {})
    return len(x)


@model(builtins.int)
def m_int(x=0, *a):
    if isinstance(x, SNum):
        return wrapc(x.trunc().t)
    if isinstance(x, SBool):
        return SNum(lift(x))
    if isinstance(x, numpy.ndarray) and x.size == 1:
        return m_int(x.flat[0])
    return int(x, *a)


@model(builtins.float, numpy.float64)
def m_float(x=0.0):
    if isinstance(x, (SNum, SBool)):
        return SNum(to_real(lift(x)))
    return float(x)


@model(builtins.round)
def m_round(x, nd=None):
    if isinstance(x, SNum):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


@model(builtins.abs, numpy.abs, numpy.absolute)
def m_abs(x):
    if isinstance(x, (list, VList, tuple)):
        x = np_array(x)
    if isinstance(x, numpy.ndarray) and x.dtype == object:
        return ew(abs, x)
    if interp_method(x, "__abs__"):
        return I_.call(type(x).__abs__, [x], {})
    return abs(x)


@model(builtins.divmod)
def m_divmod(a, b):
    return (a // b, a % b)


@model(builtins.pow)
def m_pow(a, b, *c):
    return a ** b


def minmax(args, mn, key=None, default=None, hasdef=False):
    if len(args) == 1:
        x = args[0]
        if isinstance(x, (SArr,)):
            return x._red("min" if mn else "max")
        ns = iter_nodes(x)
        ns = resolve_ifs(ns)
    else:
        ns = [It(a) for a in args]
    if key is not None:
        ks = [I_.call(key, [n.v], {}) for n in ns if isinstance(n, It)]
        if len(ks) != len(ns):
            raise Unsupported("min/max with key over symbolic sequence")
        best = 0
        for k in range(1, len(ks)):
            if truth(ks[k] < ks[best] if mn else ks[k] > ks[best]):
                best = k
        return ns[best].v
    parts = []
    for n in ns:
        if isinstance(n, It):
            parts.append(n.v)
        elif single(n):
            if not E().decide(n.n > 0):
                continue
            el = elem(None, n, n.ivar)
            parts.append(wrapc(reduce_term("min" if mn else "max", n.ivar, n.n, lift(el))))
        else:
            present, v = red_nodes("min" if mn else "max", [n], lambda v: v)
            if E().decide(present):
                parts.append(wrapc(v))
    if not parts:
        if hasdef:
            return default
        raise ValueError("min() arg is an empty sequence")
    if len(parts) == 1:
        return parts[0]
    if any(isinstance(p, (tuple, str, SText)) for p in parts):
        parts = [concretize(p) for p in parts]
        return min(parts) if mn else max(parts)
    if not any(isinstance(p, SNum) for p in parts):
        return min(parts) if mn else max(parts)
    return fold_minmax(parts, mn)


_nodef = object()


@model(builtins.min)
def m_min(*a, **k):
    return minmax(a, True, k.get("key"), k.get("default"), "default" in k)


@model(builtins.max)
def m_max(*a, **k):
    return minmax(a, False, k.get("key"), k.get("default"), "default" in k)


def sum_nodes(ns, acc):
    for n in ns:
        if isinstance(n, It):
            acc = I_.binop(__import__("ast").Add, acc, n.v)
        elif isinstance(n, If):
            acc = merge_values(n.c, sum_nodes(n.a, acc), sum_nodes(n.b, acc))
        elif isinstance(n, Loop):
            if len(n.body) == 1 and isinstance(n.body[0], It):
                el = elem(None, n, n.ivar)
            else:
                el = sum_nodes(n.body, 0)
            if isinstance(el, numpy.ndarray):
                out = numpy.empty(el.shape, dtype=object)
                for ix in numpy.ndindex(el.shape):
                    out[ix] = wrapc(reduce_term("sum", n.ivar, n.n, lift(el[ix])))
                acc = acc + out
            elif isnum(el) or isinstance(el, SBool):
                acc = acc + wrapc(reduce_term("sum", n.ivar, n.n, lift(el)))
            else:
                raise Unsupported("sum of symbolic sequence of %s" % type(el).__name__)
        else:
            raise Unsupported("sum")
    return acc


@model(builtins.sum)
def m_sum(it, start=0):
    if isinstance(it, SArr) and it.ncols is None:
        return start + it.sum()
    return sum_nodes(iter_nodes(it), start)


def bool_nodes(ns, isany):
    """z3 condition: some / all elements true"""
    parts = []
    for n in ns:
        if isinstance(n, It):
            v = n.v
            if isinstance(v, (SBool, SNum)):
                parts.append(zbool(v))
            else:
                parts.append(z3.BoolVal(truth(v)))
        elif isinstance(n, If):
            parts.append(z3.If(n.c, bool_nodes(n.a, isany), bool_nodes(n.b, isany)))
        elif isinstance(n, Loop):
            if len(n.body) == 1 and isinstance(n.body[0], It):
                c = zbool(elem(None, n, n.ivar))
            else:
                c = bool_nodes(n.body, isany)
            c = c if isany else z3.Not(c)
            ex = E().exists_term(c, n.ivar, n.n)
            parts.append(ex if isany else z3.Not(ex))
        else:
            raise Unsupported("any/all")
    return z3.simplify(z3.Or(*parts) if isany else z3.And(*parts)) if parts else z3.BoolVal(not isany)


@model(builtins.any)
def m_any(it):
    ns = iter_nodes(it)
    if all(isinstance(n, It) and not isinstance(n.v, (SBool, SNum)) for n in ns):
        return any(truth(n.v) for n in ns)
    return wrapc(bool_nodes(ns, True))


@model(builtins.all)
def m_all(it):
    ns = iter_nodes(it)
    if all(isinstance(n, It) and not isinstance(n.v, (SBool, SNum)) for n in ns):
        return all(truth(n.v) for n in ns)
    return wrapc(bool_nodes(ns, False))


@model(builtins.bool)
def m_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return SBool(x.t != 0)
    return truth(x)


@model(builtins.list)
def m_list(x=()):
    if isinstance(x, SDict) and x._base is None and not x._events:
        return VList(x.keys())
    return VList(nodes=list(iter_nodes(x)))


@model(builtins.tuple)
def m_tuple(x=()):
    ns = iter_nodes(x)
    ns = resolve_ifs(ns)
    if all(isinstance(n, It) for n in ns):
        return tuple(n.v for n in ns)
    return VList(nodes=list(ns))


@model(builtins.set, builtins.frozenset)
def m_set(x=()):
    if isinstance(x, SSet):
        return SSet(list(x.nodes))
    return SSet(list(iter_nodes(x)))


@model(builtins.dict)
def m_dict(x=(), /, **k):
    if isinstance(x, SDict):
        d = x.copy()
    elif isinstance(x, dict):
        d = SDict(x.items())
    else:
        d = SDict()
        for n in iter_nodes(x):
            if not isinstance(n, It):
                raise Unsupported("dict of symbolic sequence")
            a, b = I_.unpack(n.v)
            d[a] = b
    for a, b in k.items():
        d[a] = b
    return d


@model(builtins.map)
def m_map(f, *its):
    out = VList()
    if len(its) == 1:
        I_.iterate(("map", id(f), I_.depth), its[0], lambda v: out.append(I_.call(f, [v], {})))
    else:
        I_.iterate(("map", id(f), I_.depth), m_zip(*its), lambda v: out.append(I_.call(f, list(v), {})))
    return out


@model(builtins.filter)
def m_filter(f, it):
    out = VList()

    def body(v):
        if truth(I_.call(f, [v], {}) if f is not None else v):
            out.append(v)
    I_.iterate(("filter", id(f), I_.depth), it, body)
    return out


class PyIter(object):
    _engine_class_ = True

    def __init__(self, x):
        self.src = x
        self.k = 0
        self.ns = iter_nodes(x)

    def __iter__(self):
        return self

    def __next__(self):
        if self.k >= len(self.ns):
            raise StopIteration()
        if not isinstance(self.ns[self.k], It):
            raise Unsupported("iterator over symbolic sequence")
        self.k += 1
        return self.ns[self.k - 1].v


@model(builtins.iter)
def m_iter(x):
    if isinstance(x, VTYPES):
        return PyIter(x)
    return iter(x)


@model(builtins.next)
def m_next(x, *d):
    if isinstance(x, VList):
        ns = resolve_ifs(x._nodes)
        if ns and isinstance(ns[0], It):
            x._replace(ns[1:])
            return ns[0].v
        if not ns:
            if d:
                return d[0]
            raise StopIteration()
        if single(ns[0]):
            # first element (of a generator expression)
            if E().decide(ns[0].n > 0):
                v = elem(x, ns[0], z3.IntVal(0))
                iv = V.fresh_index()
                x._replace([ns[0].shift(iv, ns[0].n - 1, iv + 1)] + ns[1:])
                return v
        raise Unsupported("next on symbolic sequence")
    return next(x, *d)


PYTYPES = [
    (SBool, (bool, int, object, numbers.Number, numbers.Integral)),
    (SText, None),
    (VList, (list, object)),
    (SDict, (dict, object)),
    (SSet, (set, object)),
    (SComplex, (complex, object, numbers.Number, numbers.Complex)),
    (SArr, (numpy.ndarray, object)),
    (SArrT, (numpy.ndarray, object)),
    (IFunc, (types.FunctionType, object)),
]


def isinst1(x, t):
    if isinstance(t, tuple):
        return any(isinst1(x, y) for y in t)
    if isinstance(x, SNum):
        if x.t.sort() == core.I:
            return t in (int, object, numbers.Number, numbers.Integral, numbers.Real, SNum, numbers.Complex)
        return t in (float, object, numbers.Number, numbers.Real, SNum, numbers.Complex)
    if isinstance(x, SText):
        return t is (bytes if x.isbytes else str) or t is object
    for ty, names in PYTYPES:
        if isinstance(x, ty):
            return t in names or t is ty
    try:
        import collections.abc as cabc
        if isinstance(x, VTYPES) and t in (cabc.Iterable, cabc.Sequence):
            return True
    except Exception:
        pass
    return isinstance(x, t)


@model(builtins.isinstance)
def m_isinstance(x, t):
    if isinstance(t, VList):
        raise TypeError("isinstance arg 2")
    return isinst1(x, t)


@model(builtins.callable)
def m_callable(x):
    if isinstance(x, IFunc):
        return True
    if isinstance(x, VTYPES):
        return False
    return callable(x)


@model(builtins.type)
def m_type(x, *a):
    if a:
        raise Unsupported("type()")
    if isinstance(x, SNum):
        return int if x.t.sort() == core.I else float
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SText):
        return bytes if x.isbytes else str
    for ty, names in PYTYPES:
        if isinstance(x, ty) and names:
            return names[0]
    return type(x)


_LISTATTRS = {VList: list, SDict: dict, SSet: set, SArr: numpy.ndarray, SArrT: numpy.ndarray, SNum: float, SBool: bool}


@model(builtins.hasattr)
def m_hasattr(x, name):
    if isinstance(x, SText):
        return hasattr(b"" if x.isbytes else "", name)
    if isinstance(x, SFile):
        return name in ("write", "read", "close", "seek", "tell")
    for t, py in _LISTATTRS.items():
        if isinstance(x, t):
            return hasattr(py if py is not numpy.ndarray else numpy.zeros(1), name)
    try:
        I_.getattr(x, name)
        return True
    except AttributeError:
        return False


@model(builtins.getattr)
def m_getattr(x, name, *d):
    try:
        return I_.getattr(x, name)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(builtins.setattr)
def m_setattr(x, name, v):
    I_.setattr(x, name, v)


@model(builtins.id)
def m_id(x):
    return id(x)


@model(builtins.print)
def m_print(*a, **k):
    return None


@model(builtins.str)
def m_str(x="", *a):
    if isinstance(x, (SNum, SText, SBool)):
        return format_one(x, "", None)
    if interp_method(x, "__str__"):
        return I_.call(type(x).__str__, [x], {})
    if is_sym(x):
        raise Unsupported("str of a symbolic container")
    return str(x, *a)


@model(builtins.repr)
def m_repr(x):
    if is_sym(x):
        raise Unsupported("repr")
    return repr(x)


@model(warnings.warn)
def m_warn(*a, **k):
    g = E().ghost
    g["warnings"] = g.get("warnings", 0) + 1
    return None


# ---------------------------------------------------------------- identity, equality, membership
def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
        return truth(a == b)
    return False


def eq(a, b, ne=False):
    r = _eq(a, b)
    if not ne:
        return r
    if isinstance(r, SBool):
        return SBool(z3.Not(r.t))
    if isinstance(r, (numpy.ndarray, SArr)):
        return a != b
    return not r


def _eq(a, b):
    if isinstance(a, (SArr, numpy.ndarray)) or isinstance(b, (SArr, numpy.ndarray)):
        if a is None or b is None:
            return False
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            r = _eq(x, y)
            if isinstance(r, SBool):
                parts.append(r.t)
            elif isinstance(r, numpy.ndarray):
                raise ValueError("truth value of an array is ambiguous")
            elif not r:
                return False
        return SBool(z3.And(*parts)) if parts else True
    if isinstance(a, (SText,)) and isinstance(b, str) or isinstance(a, SText) and isinstance(b, (bytes, SText)):
        return a == b
    if isinstance(b, SText) and isinstance(a, (str, bytes)):
        return b == a
    if isinstance(a, VTYPES) or isinstance(b, VTYPES):
        if isinstance(b, (SNum, SBool)) and not isinstance(a, (SNum, SBool)):
            return b == a
        return a == b
    if interp_method(a, "__eq__"):
        return I_.call(type(a).__eq__, [a, b], {})
    if (isinstance(a, tuple) or isinstance(b, tuple)) and (is_sym(a) or is_sym(b)):
        return False
    return a == b


def tuple_less(a, b, op):
    import ast
    for x, y in zip(a, b):
        r = _eq(x, y)
        if not truth(r):
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](x, y)
    return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](len(a), len(b))


def contains(c, x):
    if isinstance(c, SDict):
        return c.sym_contains(x)
    if isinstance(c, dict):
        if not is_sym(x):
            try:
                return x in c
            except TypeError:
                raise
        for k in c:
            if truth(_eq(k, x)):
                return True
        return False
    if isinstance(c, (str, bytes)):
        if isinstance(x, SText):
            raise Unsupported("substring test")
        return x in c
    if isinstance(c, SText):
        raise Unsupported("substring test")
    if isinstance(c, range):
        if isinstance(x, SNum):
            if len(c) == 0:
                return False
            if c.step == 1:
                return SBool(z3.And(x.t >= c.start, x.t < c.stop))
            return SBool(z3.Or(*[x.t == k for k in c]))
        return x in c
    if isinstance(c, (set, frozenset)) and not is_sym(x) and not is_sym(c):
        return x in c
    if getattr(type(c), "_engine_class_", False) and hasattr(c, "sym_contains"):
        return c.sym_contains(x)
    if interp_method(c, "__contains__"):
        return I_.call(type(c).__contains__, [c, x], {})
    ns = iter_nodes(c) if not isinstance(c, SSet) else c.nodes
    return contains_nodes(ns, x)


def contains_nodes(ns, x):
    parts = []
    for n in ns:
        if isinstance(n, It):
            if n.v is x:
                return True
            r = _eq(n.v, x)
            if isinstance(r, SBool):
                parts.append(r.t)
            elif isinstance(r, numpy.ndarray):
                raise ValueError("truth value of an array is ambiguous")
            elif r:
                return True
        elif isinstance(n, If):
            a, b = contains_nodes(n.a, x), contains_nodes(n.b, x)
            parts.append(z3.If(n.c, zbool(a), zbool(b)))
        elif isinstance(n, Loop):
            if len(n.body) == 1 and isinstance(n.body[0], It):
                el = n.body[0].v
                if hasattr(el, "at"):
                    el = elem(None, n, n.ivar)
                r = _eq_elem(el, x, n)
            else:
                r = contains_nodes(n.body, x)
            if r is False:
                continue
            parts.append(E().exists_term(zbool(r), n.ivar, n.n))
        else:
            raise Unsupported("membership in while sequence")
    if not parts:
        return False
    return wrapc(z3.Or(*parts))


def _eq_elem(el, x, node):
    if isinstance(el, (SNum, SText, tuple, int, str, SBool)) or el is None:
        return _eq(el, x)
    # objects: is x an element of the sequence?
    info = E().elem_of.get(id(x))
    if info is not None and info[1] is node:
        return SBool(info[2] == node.ivar)
    if E().uid_any(x) is not None:
        raise Unsupported("membership of an object in a symbolic list")
    return False


_sorted_names = {}


def sorted_texts(ns, reverse):
    """texts of symbolic number in order: a function of the given sequence (equal sequences have equal orderings)"""
    from . import loops
    t = ([It(SText(n.v.nodes, n.v.isbytes)) if isinstance(n, It) else n for n in ns])
    isb = [(n.v if isinstance(n, It) else n.body[0].v).isbytes for n in ns][0]
    key = (loops._nodes_sexpr(t), reverse)
    args = E().index_args()
    f = z3.Function("sorted!%d" % _sorted_names.setdefault(key, len(_sorted_names)), *([core.I] * (len(args) + 1) + [core.StrSort]))
    iv = V.fresh_index()
    return VList(nodes=[Loop(iv, lift(seq_len(ns)), [It(SText([It(Atom("str", f(*(list(args) + [iv]))))], isb))])])


def sorted_model(x, key=None, reverse=False):
    ns = resolve_ifs(iter_nodes(x))
    if not all(isinstance(n, It) for n in ns):
        if key is None and all(len(n.body) == 1 and isinstance(n.body[0], It) and isinstance(n.body[0].v, SText) for n in ns if isinstance(n, Loop)) and all(isinstance(n, Loop) or isinstance(n, It) and isinstance(n.v, SText) for n in ns):
            return sorted_texts(ns, reverse)
        raise Unsupported("sorting a symbolic sequence")
    vals = [n.v for n in ns]
    keys = [I_.call(key, [v], {}) if key is not None else v for v in vals]
    if not any(is_sym(k) for k in keys):
        order = sorted(range(len(vals)), key=lambda i: keys[i], reverse=reverse)
        return VList([vals[i] for i in order])
    import ast
    out = []
    for i in range(len(vals)):
        j = len(out)
        while j > 0:
            a, b = keys[i], keys[out[j - 1]]
            less = I_.compare(ast.Lt(), a, b) if not reverse else I_.compare(ast.Gt(), a, b)
            if truth(less):
                j -= 1
            else:
                break
        out.insert(j, i)
    return VList([vals[i] for i in out])


@model(builtins.sorted)
def m_sorted(x, key=None, reverse=False):
    return sorted_model(x, key, reverse)


# ---------------------------------------------------------------- subscripts
def getitem(o, k):
    if isinstance(o, VTYPES):
        if isinstance(o, SArr) and isinstance(k, (VList, list, numpy.ndarray)):
            return arr_take(o, k)
        return o[k]
    if isinstance(o, (list, tuple)):
        if isinstance(k, SNum) or isinstance(k, slice) and any(isinstance(x, SNum) for x in (k.start, k.stop, k.step)):
            return V.seq_get(None, [It(x) for x in o], k)
        if isinstance(k, SBool):
            return o[1] if truth(k) else o[0]
        r = o[k]
        return VList(r) if isinstance(k, slice) and isinstance(o, list) else r
    if isinstance(o, dict):
        if is_sym(k):
            for kk in o:
                if truth(_eq(kk, k)):
                    return o[kk]
            raise KeyError(k)
        return o[k]
    if isinstance(o, numpy.ndarray):
        return nd_getitem(o, k)
    if isinstance(o, (str, bytes)):
        if isinstance(k, SNum):
            for j in range(len(o)):
                if truth(k == j):
                    return o[j]
            raise Unsupported("symbolic index into text")
        if isinstance(k, slice):
            k = slice(*(concretize(x) for x in (k.start, k.stop, k.step)))
        return o[k]
    if isinstance(o, range):
        if isinstance(k, SNum):
            return wrapc(o.start + o.step * k.t)
        return o[k]
    if interp_method(o, "__getitem__"):
        return I_.call(type(o).__getitem__, [o, k], {})
    if isinstance(o, (Group,)):
        raise Unsupported("subscript of grouped value")
    return o[k]


def conc_index(k, n):
    """symbolic index into n items: branch"""
    for j in range(n):
        if truth(SBool(z3.Or(k.t == j, k.t == j - n))):
            return j
    raise IndexError("index out of range")


def nd_key(o, k):
    if isinstance(k, SNum):
        return conc_index(k, o.shape[0])
    if isinstance(k, (VList,)):
        return numpy.array(concretize(k), dtype=int) if len(k) else numpy.zeros(0, dtype=int)
    if isinstance(k, tuple):
        ks = []
        ax = 0
        for x in k:
            if isinstance(x, SNum):
                ks.append(conc_index(x, o.shape[ax]))
            elif isinstance(x, VList):
                ks.append(nd_key(o, x))
            elif isinstance(x, slice):
                ks.append(slice_conc(x))
            elif isinstance(x, numpy.ndarray) and x.dtype == object:
                ks.append(nd_key(o, x))
            else:
                ks.append(x)
            if x is not None:
                ax += 1
        return tuple(ks)
    if isinstance(k, slice):
        return slice_conc(k)
    if isinstance(k, numpy.ndarray) and k.dtype == object:
        if k.size and all(isinstance(x, (SBool, bool, numpy.bool_)) for x in k.flat):
            return numpy.array([truth(x) for x in k.flat], dtype=bool).reshape(k.shape)
        return numpy.array([int(concretize(x)) for x in k.flat], dtype=int).reshape(k.shape)
    return k


def slice_conc(k):
    return slice(*(concretize(x) if x is not None else None for x in (k.start, k.stop, k.step)))


def nd_getitem(o, k):
    if isinstance(k, slice) and any(isinstance(x, SNum) for x in (k.start, k.stop)):
        raise Unsupported("symbolic slice of a concrete array")
    r = o[nd_key(o, k)]
    if isinstance(r, numpy.ndarray) and E().loops:
        # a view: writes through it are writes to o
        u = E().uid_any(o)
        if u is not None:
            E().uids[id(r)] = u
            E().keep.append(r)
    return r


def setitem(interp_, o, k, v):
    if isinstance(o, numpy.ndarray):
        interp_.check_array_write(o)
        if o.dtype != object and is_sym(v):
            raise Unsupported("symbolic value stored in a native array")
        if isinstance(v, VList):
            v = np_array(v)
        if isinstance(v, SArr):
            raise Unsupported("symbolic array stored in a native array")
        o[nd_key(o, k)] = v
        return
    if isinstance(o, VTYPES) or isinstance(o, Group):
        if isinstance(o, SArr) and isinstance(v, VList):
            v = np_array(v)
        o[k] = v
        return
    if isinstance(o, (list, dict)):
        if E().loops:
            raise Unsupported("native container changed in a symbolic loop")
        o[k] = v
        return
    if interp_method(o, "__setitem__"):
        I_.call(type(o).__setitem__, [o, k, v], {})
        return
    o[k] = v


def arr_take(a, k):
    if isinstance(k, (VList, list)):
        ks = list(k)
        return numpy.array([a[interp.unindex(x)] for x in ks], dtype=object)
    if k.dtype != object:
        return numpy.array([a[int(x)] for x in k], dtype=object)
    raise Unsupported("index array")


def text_getitem(t, k):
    raise Unsupported("subscript of symbolic text")


# ---------------------------------------------------------------- attributes of V types
def vtype_attr(o, name):
    """(value,) for attributes that need a model, else None"""
    return None


def ndarray_attr(o, name):
    if name in ("real", "imag") and o.dtype == object and any(isinstance(x, V.SComplex) for x in o.flat):
        return (ew(lambda x: x.real if name == "real" else x.imag, o),)
    return None


@model(numpy.angle)
def m_angle(x, deg=False):
    if not is_sym(x):
        return numpy.angle(x, deg)
    if deg:
        raise Unsupported("angle in degrees")
    return ew(lambda z: m_arctan2(z.imag, z.real), x)


@model(numpy.linalg.solve)
def m_solve(m, b):
    """some vector that satisfies the equations with constant coefficients (the others are dropped: any solution is allowed)"""
    m, b = np_array(m), np_array(b)
    if not is_sym(m) and not is_sym(b):
        return numpy.linalg.solve(m, b)
    if isinstance(m, SArr) or isinstance(b, SArr) or b.ndim != 1:
        raise Unsupported("system of symbolic size")
    x = numpy.empty(len(b), dtype=object)
    for k in range(len(b)):
        x[k] = SNum(E().fresh("solution", z3.RealSort()))
    for r in range(len(b)):
        if not any(is_sym(v) for v in m[r]):
            lhs = 0
            for v, y in zip(m[r], x):
                if v != 0:
                    lhs = lhs + v * y
            E().assume(to_real(lift(lhs)) == to_real(lift(b[r])))
    return x


def ndarray_method(a, name, args, kwargs):
    args = [np_array(x) if isinstance(x, VList) else x for x in args]
    if name in ("min", "max"):
        ax = args[0] if args else kwargs.get("axis")
        return nd_minmax(a, name == "min", ax)
    if name == "astype":
        return nd_astype(a, args[0])
    if name in ("round",):
        return ew(rint1, a)
    if name == "tobytes":
        raise Unsupported("tobytes of mixed array")
    if name in ("dot",) and isinstance(args[0], SArr):
        raise Unsupported("dot")
    if name == "tolist":
        return VList([VList(list(r)) if isinstance(r, numpy.ndarray) else r for r in a])
    if name in ("all", "any"):
        if args or kwargs:
            raise Unsupported("all/any with axis")
        return (m_all if name == "all" else m_any)(list(a.flat))
    if name in ("sum", "dot", "reshape", "transpose", "copy", "flatten", "ravel", "item", "repeat", "fill", "conj", "conjugate", "cumsum", "swapaxes", "take", "squeeze", "prod"):
        if name == "reshape":
            args = [tuple(interp.unindex(y) for y in x) if isinstance(x, (tuple, VList)) else interp.unindex(x) for x in args]
        if name == "fill":
            I_.check_array_write(a)
        return getattr(a, name)(*args, **kwargs)
    if name == "resize":
        shape = args[0] if len(args) == 1 else tuple(args)
        shape = tuple(shape) if isinstance(shape, (tuple, list, VList)) else (shape,)
        if int(numpy.prod(shape)) != a.size:
            raise Unsupported("resize to another number of items")
        I_.check_array_write(a)
        a.shape = shape
        return None
    if name in ("nonzero",):
        return numpy.array([truth(SBool(zbool(x)) if not isinstance(x, (bool, float, int)) else x) for x in a.flat], dtype=bool).reshape(a.shape).nonzero()
    raise Unsupported("ndarray.%s on symbolic data" % name)


def nd_minmax(a, mn, axis=None):
    if axis is None:
        return fold_minmax(list(a.flat), mn)
    b = numpy.moveaxis(a, axis, 0)
    if b.ndim == 1:
        return fold_minmax(list(b), mn)
    out = numpy.empty(b.shape[1:], dtype=object)
    for ix in numpy.ndindex(out.shape):
        out[ix] = fold_minmax([b[(k,) + ix] for k in range(b.shape[0])], mn)
    return out


def dt_kind(dt):
    if dt in (int, "int", "uint", "i4", ">i4", "i8", ">i2", ">u2", numpy.int64, numpy.int32) or isinstance(dt, numpy.dtype) and dt.kind in "iu":
        return "i"
    if isinstance(dt, str) and dt.lstrip("<>=")[:1] in "iu":
        return "i"
    if dt in (bool, numpy.bool_):
        return "b"
    if dt in (complex,):
        raise Unsupported("complex dtype")
    if dt is object:
        return "o"
    return "f"


def dt_size(dt):
    return numpy.dtype(dt).itemsize


def trunc1(x):
    if isinstance(x, SNum):
        return x.trunc()
    return int(x)


def real1(x):
    if isinstance(x, SNum):
        return SNum(to_real(x.t))
    return float(x)


class TypedArr(SArr):
    """symbolic array with a fixed binary element format (result of astype)"""

    def __init__(self, n, f, ncols, size):
        SArr.__init__(self, n, f, ncols)
        self.esize = size

    def __setitem__(self, k, v):
        # integer elements: fractions are cut off
        if isinstance(v, TypedNd):
            v = v.a
        if isinstance(v, SArr):
            v = arr_ew(trunc1, v)
        elif isinstance(v, numpy.ndarray):
            v = ew(trunc1, v)
        elif isnum(v):
            v = trunc1(v)
        else:
            raise Unsupported("assignment to a typed array")
        SArr.__setitem__(self, k, v)

    def copy(self):
        return TypedArr(self.n, self.f, self.ncols, self.esize)

    def __getitem__(self, k):
        r = SArr.__getitem__(self, k)
        if isinstance(r, TypedArr):
            return r
        if isinstance(r, SArr) and self.esize is not None:
            return TypedArr(r.n, r.f, r.ncols, self.esize)
        if isinstance(r, numpy.ndarray) and self.esize is not None:
            return TypedNd(r, ">i%d" % self.esize)
        return r


class TypedNd(object):
    """concrete-shape array with a binary element format"""
    _engine_class_ = True

    def __init__(self, a, dt):
        self.a, self.dt = a, dt

    def tobytes(self):
        s = dt_size(self.dt)
        return SText([It(Atom("F", s, lift(x))) for x in self.a.flat], True)

    tostring = tobytes

    @property
    def shape(self):
        return self.a.shape

    def __getitem__(self, k):
        return TypedNd(nd_getitem(self.a, k), self.dt)

    def _subst(self, s):
        return TypedNd(s(self.a), self.dt)


def nd_astype(a, dt):
    k = dt_kind(dt)
    if k == "i":
        r = ew(trunc1, a)
        if isinstance(dt, str) and dt[0] in "<>":
            if dt[0] == "<":
                raise Unsupported("little endian data")
            return TypedNd(r, dt)
        return r
    if k == "f":
        return ew(real1, a)
    if k == "o":
        return a.copy()
    raise Unsupported("astype")


def arr_astype(a, dt):
    k = dt_kind(dt)
    if k == "i":
        r = arr_ew(trunc1, a)
        if isinstance(dt, str) and dt[0] == "<":
            raise Unsupported("little endian data")
        return TypedArr(r.n, r.f, r.ncols, dt_size(dt) if isinstance(dt, str) and dt[0] == ">" else None)
    if k == "f":
        return arr_ew(real1, a)
    return a.copy()


def arr_tobytes(a):
    if not isinstance(a, TypedArr) or a.esize is None:
        raise Unsupported("tobytes of an array of unknown element format")
    iv = V.fresh_index()
    row = a.f(iv)
    body = [It(Atom("F", a.esize, lift(x)))for x in (row if a.ncols is not None else [row])]
    return SText([Loop(iv, a.nt, body)], True)


def arr_reshape(a, shape):
    shape = tuple(interp.unindex(x) for x in shape)
    if len(shape) == 1 and a.ncols is None:
        return a
    if len(shape) == 2 and a.ncols is None and isinstance(shape[1], int):
        w = shape[1]
        if w == 1:
            return SArr(a.n, lambda j: numpy.array([a.f(j)], dtype=object), 1)
        f = a.f
        n = wrapc(a.nt / w)
        return SArr(n, lambda j: numpy.array([f(j * w + k) for k in range(w)], dtype=object), w)
    if len(shape) == 2 and a.ncols is not None and shape[1] == a.ncols:
        return a
    if len(shape) == 1 and a.ncols is not None:
        # flatten: element k is row k // ncols, column k % ncols
        f, w = a.f, a.ncols

        def g(j):
            r = f(j / w)
            v = r[w - 1]
            for c in range(w - 2, -1, -1):
                v = merge_values(z3.simplify(j % w == c), r[c], v)
            return v
        return SArr(wrapc(a.nt * w), g, None)
    raise Unsupported("reshape")


def ew(f, x):
    if isinstance(x, SArr):
        return arr_ew(f, x)
    if isinstance(x, (list, tuple, VList)):
        x = np_array(x)
        if isinstance(x, SArr):
            return arr_ew(f, x)
    if isinstance(x, numpy.ndarray):
        out = numpy.empty(x.shape, dtype=object)
        for ix in numpy.ndindex(x.shape):
            out[ix] = f(x[ix])
        if E() is not None and E().loops:
            E().adopt(out)
        return out if x.ndim else out.item()
    return f(x)


def arr_ew(f, a):
    g = a.f
    if a.ncols is None:
        return SArr(a.n, lambda j: f(g(j)), None)

    def h(j):
        r = g(j)
        out = numpy.empty(len(r), dtype=object)
        for k in range(len(r)):
            out[k] = f(r[k])
        return out
    return SArr(a.n, h, a.ncols)


def rint1(x):
    if isinstance(x, SNum):
        return x.rint()
    return float(numpy.rint(float(x)))


def np_round(x, d=0):
    if d not in (0, None):
        raise Unsupported("round with decimals")
    return ew(rint1, x)


def np_fn(nat, name):
    def f(x):
        if isinstance(x, SNum):
            return getattr(x, name)()
        if isinstance(x, SBool):
            return getattr(SNum(lift(x)), name)()
        if isinstance(x, V.SComplex):
            return getattr(x, name)()
        return nat(x)

    def m(x, **k):
        if not is_sym(x):
            return nat(x)
        return ew(f, x)
    MODELS[id(nat)] = (nat, m)
    m._engine_ = True
    return m


for _n, _m in (("cos", "cos"), ("sin", "sin"), ("tan", "tan"), ("sqrt", "sqrt"), ("arccos", "arccos"), ("exp", "exp"), ("log2", "log2"), ("ceil", "ceil"), ("floor", "floor")):
    np_fn(getattr(numpy, _n), _m)
for _n, _m in (("cos", "cos"), ("sin", "sin"), ("tan", "tan"), ("sqrt", "sqrt"), ("acos", "arccos"), ("exp", "exp")):
    np_fn(getattr(math, _n), _m)
np_fn(math.ceil, "__ceil__")
np_fn(math.floor, "__floor__")
MODELS[id(numpy.rint)] = (numpy.rint, np_round)
MODELS[id(numpy.round)] = (numpy.round, np_round)
MODELS[id(numpy.around)] = (numpy.around, np_round)


def atan2_1(y, x):
    if not isinstance(y, SNum) and not isinstance(x, SNum):
        return float(numpy.arctan2(y, x))
    y, x = to_real(lift(y)), to_real(lift(x))
    if E().valid(y == 0) and E().valid(x > 0):
        return SNum(z3.RealVal(0))
    ny, sy = over_root(y)
    nx, sx = over_root(x)
    if sy is not None and sx is not None and sy.eq(sx) and E().valid(sy > 0):
        y, x = ny, nx  # the same angle
    return SNum(core.F_atan2(y, x))


def over_root(t):
    """numerator and denominator of a term divided by a square root"""
    t = z3.simplify(t) if z3.is_rational_value(t) else t
    if z3.is_div(t) and z3.is_app(t.arg(1)) and t.arg(1).decl().eq(core.F_sqrt):
        return t.arg(0), t.arg(1)
    if z3.is_mul(t) and t.num_args() == 2:
        for a, b in (t.children(), t.children()[::-1]):
            if z3.is_rational_value(a):
                n, d = over_root(b)
                if d is not None:
                    return a * n, d
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        n, d = over_root(t.arg(0))
        if d is not None:
            return -n, d
    return t, None


@model(numpy.arctan2, math.atan2)
def m_arctan2(y, x):
    if isinstance(y, SArr) or isinstance(x, SArr):
        if isinstance(y, SArr):
            return y._lift2(x, atan2_1)
        return x._lift2(y, lambda a, b: atan2_1(b, a))
    if isinstance(y, numpy.ndarray) or isinstance(x, numpy.ndarray):
        y, x = numpy.broadcast_arrays(numpy.array(y, dtype=object), numpy.array(x, dtype=object))
        out = numpy.empty(y.shape, dtype=object)
        for ix in numpy.ndindex(y.shape):
            out[ix] = atan2_1(y[ix], x[ix])
        return out
    return atan2_1(y, x)


@model(numpy.hypot, math.hypot)
def m_hypot(a, b):
    return SNum(core.F_sqrt(to_real(lift(a * a + b * b))))


def sign1(x):
    if isinstance(x, SNum):
        return SNum(z3.If(x.t > 0, z3.IntVal(1), z3.If(x.t < 0, z3.IntVal(-1), z3.IntVal(0))))
    return numpy.sign(x)


@model(numpy.sign)
def m_sign(x):
    return ew(sign1, x)


@model(numpy.isscalar)
def m_isscalar(x):
    if isinstance(x, (SNum, SBool)):
        return True
    if isinstance(x, SText):
        return True
    if isinstance(x, VTYPES):
        return False
    return numpy.isscalar(x)


def _walk(x):
    if isinstance(x, VList):
        c = x.concrete()
        if c is None:
            return None
        return [_walk(y) for y in c]
    if isinstance(x, (list, tuple)):
        return [_walk(y) for y in x]
    return x


def np_array(x, dtype=None, copy=True, **k):
    if dtype is not None:
        kind = dt_kind(dtype)
    else:
        kind = None
    if isinstance(x, SArr):
        r = x.copy()
        if kind in ("i", "f"):
            r = arr_astype(r, dtype)
        return r
    if isinstance(x, SArrT):
        raise Unsupported("array of a transposed symbolic array")
    if isinstance(x, numpy.ndarray):
        r = numpy.array(x)
        if kind and r.dtype == object:
            r = nd_astype(r, dtype)
        elif kind:
            r = r.astype(dtype)
        return r
    if isinstance(x, (SNum, SBool)):
        a = numpy.empty((), dtype=object)
        a[()] = x
        return a
    ns = None
    if isinstance(x, (VList, list, tuple, range)):
        ns = iter_nodes(x)
        ns = resolve_ifs(ns) if any(isinstance(n, If) for n in ns) else ns
    else:
        return numpy.array(concretize(x), **({"dtype": dtype} if dtype is not None else {}))
    if all(isinstance(n, It) for n in ns):
        vals = [n.v for n in ns]
        if any(isinstance(v, SArr) for v in vals):
            if len(vals) == 2 and all(isinstance(v, SArr) and v.ncols is None for v in vals):
                # numpy.array((xs, ys)) -> 2 x n, transposed later
                return SArrT(cols_to_arr(vals))
            raise Unsupported("array of symbolic arrays")
        rows = [np_array(v) if isinstance(v, (VList, list, tuple, numpy.ndarray, range)) else v for v in vals]
        if any(isinstance(r, SArr) for r in rows):
            raise Unsupported("array of symbolic arrays")
        if rows and any(isinstance(r, numpy.ndarray) for r in rows):
            shp = {r.shape if isinstance(r, numpy.ndarray) else () for r in rows}
            if len(shp) != 1:
                raise ValueError("inhomogeneous array")
            out = numpy.empty((len(rows),) + shp.pop(), dtype=object)
            for i, r in enumerate(rows):
                out[i] = r
        else:
            out = numpy.empty(len(rows), dtype=object)
            for i, r in enumerate(rows):
                out[i] = r
        if out.dtype == object and any(v is None or isinstance(v, (str, SText)) for v in out.flat):
            if any(isinstance(v, str) for v in out.flat):
                raise Unsupported("array of text")
        if kind in ("i", "f"):
            out = nd_astype(out, dtype)
        return out
    # symbolic number of rows
    parts = []
    for n in ns:
        if isinstance(n, It):
            r = np_array(n.v) if isinstance(n.v, (VList, list, tuple, numpy.ndarray)) else n.v
            parts.append(SArr(1, (lambda rr: lambda j: rr)(r), len(r) if isinstance(r, numpy.ndarray) else None))
        elif single(n):
            parts.append(loop_to_arr(n))
        elif isinstance(n, Loop) and all(isinstance(b, It) for b in n.body):
            parts.append(loop_to_arr_multi(n))
        else:
            raise Unsupported("array from nested symbolic sequence")
    r = concat_rows(parts)
    if kind in ("i", "f"):
        r = arr_astype(r, dtype)
    return r


def row_of(v):
    if isinstance(v, (VList, list, tuple)):
        return np_array(v)
    return v


def loop_to_arr(n):
    it = n.body[0]
    el = elem(None, n, n.ivar)
    el = row_of(el)
    if isinstance(el, SArr):
        raise Unsupported("array of symbolic arrays")
    nc = len(el) if isinstance(el, numpy.ndarray) else None
    iv = n.ivar
    return SArr(wrapc(n.n), lambda j: Subst([(iv, j)])(el), nc)


def loop_to_arr_multi(n):
    rows = [row_of(b.v) for b in n.body]
    m = len(rows)
    nc = len(rows[0]) if isinstance(rows[0], numpy.ndarray) else None
    iv = n.ivar

    def f(j):
        sub = Subst([(iv, z3.simplify(j / m))])
        vs = [sub(r) for r in rows]
        v = vs[-1]
        for c in range(m - 2, -1, -1):
            v = ite_val(z3.simplify(j % m == c), vs[c], v)
        return v
    return SArr(wrapc(n.n * m), f, nc)


def cols_to_arr(cols):
    fs = [c.f if isinstance(c, SArr) else None for c in cols]
    n = next(c.n for c in cols if isinstance(c, SArr))

    def f(j):
        out = numpy.empty(len(cols), dtype=object)
        for k, c in enumerate(cols):
            out[k] = fs[k](j) if fs[k] else c
        return out
    return SArr(n, f, len(cols))


def concat_rows(parts):
    ps = []
    for p in parts:
        if isinstance(p, (VList, list, tuple)):
            p = np_array(p)
        ps.append(p)
    if all(isinstance(p, numpy.ndarray) for p in ps):
        return numpy.concatenate([p if p.dtype == object else p.astype(object) for p in ps]) if ps else ps
    segs = []
    for p in ps:
        if isinstance(p, numpy.ndarray):
            if len(p) == 0:
                continue
            segs.append((z3.IntVal(len(p)), ("nd", p), p.shape[1] if p.ndim == 2 else None))
        else:
            segs.append((p.nt, ("arr", p.f), p.ncols))
    if len(segs) == 1 and segs[0][1][0] == "arr":
        return SArr(wrapc(segs[0][0]), segs[0][1][1], segs[0][2])
    total = z3.simplify(sum([s[0] for s in segs[1:]], segs[0][0]))

    def f(j):
        off = z3.IntVal(0)
        opts = []
        for m, src, _ in segs:
            if src[0] == "nd":
                for k in range(len(src[1])):
                    opts.append((z3.simplify(j == off + k), (lambda a, kk: lambda: a[kk])(src[1], k), True))
                off = off + m
            else:
                o = off
                opts.append((z3.simplify(j < off + m), (lambda g, oo: lambda: g(z3.simplify(j - oo)))(src[1], o), False))
                off = off + m
        v = opts[-1][1]()
        for c, g, point in reversed(opts[:-1]):
            v = ite_row(c, g, lambda vv=v: vv)
        return v
    ncs = {s[2] for s in segs}
    if len(ncs) != 1:
        raise ValueError("dimension mismatch in concatenation")
    return SArr(wrapc(total), f, ncs.pop())


@model(numpy.array, numpy.asarray, numpy.ascontiguousarray)
def m_array(x, dtype=None, **k):
    if not is_sym(x) and not isinstance(x, (numpy.ndarray,)):
        try:
            r = numpy.array(x) if dtype is None else numpy.array(x, dtype=dtype)
            if r.dtype.kind in "iufb":
                return r.astype(object) if r.dtype.kind != "b" else r
            return r
        except ValueError:
            raise
    return np_array(x, dtype)


TOP = {"min": z3.Real("top!min"), "max": z3.Real("top!max")}


def red_nodes(kind, nodes, get):
    """(present, value) of the minimum or maximum over a sequence: value is meaningful only if present holds.
    Parts that may be missing enter an aggregate as If(present, value, TOP) (equality.aggregate_bounds)."""
    parts = []
    for n in nodes:
        if isinstance(n, It):
            v = lift(get(n.v))
            parts.append((z3.BoolVal(True), to_real(v) if v.sort() != core.R else v))
        elif isinstance(n, If):
            a, b = red_nodes(kind, n.a, get), red_nodes(kind, n.b, get)
            parts.append((z3.simplify(z3.Or(z3.And(n.c, a[0]), z3.And(z3.Not(n.c), b[0]))), a[1] if b[1] is None else b[1] if a[1] is None else z3.If(n.c, a[1], b[1])))
        elif isinstance(n, Loop):
            body = [It(n.inst(k, n.ivar)) if isinstance(x, It) else x for k, x in enumerate(n.body)]
            pres, v = red_nodes(kind, body, get)
            if v is None:
                continue
            if E().valid(z3.Implies(z3.And(n.ivar >= 0, n.ivar < n.n), pres)):
                parts.append((n.n > 0, V.reduce_term(kind, n.ivar, n.n, v)))
            else:
                ex = V.reduce_term("exists", n.ivar, n.n, z3.If(pres, z3.IntVal(1), z3.IntVal(0)))
                parts.append((ex == 1, V.reduce_term(kind, n.ivar, n.n, z3.If(pres, v, TOP[kind]))))
        else:
            raise Unsupported("min/max over a while sequence")
    parts = [p for p in parts if p[1] is not None]
    if not parts:
        return z3.BoolVal(False), None
    pres, v = parts[0]
    for p2, v2 in parts[1:]:
        m = z3.If(v <= v2, v, v2) if kind == "min" else z3.If(v >= v2, v, v2)
        if z3.is_true(pres) and z3.is_true(p2):
            v = m
        elif z3.is_true(pres):
            v = z3.If(p2, m, v)
        else:
            v = z3.If(pres, z3.If(p2, m, v), v2)
        pres = z3.simplify(z3.Or(pres, p2))
    return pres, v


class SFlat(object):
    """one coordinate of the concatenated rows of a nested sequence: only its minimum and maximum are known"""
    _engine_class_ = True

    def __init__(self, rows, k):
        self._rows, self._k = rows, k

    def min(self, axis=None):
        return self._rows.red("min", self._k)

    def max(self, axis=None):
        return self._rows.red("max", self._k)


class SRows(object):
    """concatenation of a symbolic number of 2-column arrays"""
    _engine_class_ = True

    def __init__(self, nodes, ncols):
        self._nodes, self.ncols = nodes, ncols

    def nodes(self):
        return self._nodes

    def red(self, kind, k):
        pres, v = red_nodes(kind, self._nodes, lambda r: r[k])
        if v is None or not E().decide(pres):
            raise ValueError("zero-size array to reduction operation which has no identity")
        return wrapc(v)

    def min(self, axis=None):
        return self._axis("min", axis)

    def max(self, axis=None):
        return self._axis("max", axis)

    def _axis(self, kind, axis):
        if axis != 0:
            raise Unsupported("reduction axis of concatenated rows")
        return numpy.array([self.red(kind, k) for k in range(self.ncols)], dtype=object)

    def transpose(self):
        return [SFlat(self, k) for k in range(self.ncols)]

    T = property(transpose)


def row_nodes(v):
    if isinstance(v, SArr):
        return arr_nodes(v) if not isinstance(v.n, int) else [It(v.f(z3.IntVal(k))) for k in range(v.n)]
    v = v if isinstance(v, numpy.ndarray) else np_array(v)
    if isinstance(v, SArr):
        return arr_nodes(v)
    if v.ndim != 2:
        raise Unsupported("concatenation of arrays that are not two-dimensional")
    return [It(r) for r in v]


def concat_nodes(nodes):
    out = []
    for n in nodes:
        if isinstance(n, It):
            out.extend(row_nodes(n.v))
        elif isinstance(n, Loop):
            body = []
            for k, x in enumerate(n.body):
                body.extend(row_nodes(n.inst(k, n.ivar)) if isinstance(x, It) else concat_nodes([x]))
            out.append(Loop(n.ivar, n.n, body, n.outer, True))
        elif isinstance(n, If):
            out.append(If(n.c, concat_nodes(n.a), concat_nodes(n.b)))
        else:
            raise Unsupported("concatenation of a while sequence")
    return out


@model(numpy.vstack)
def m_vstack(xs):
    ns = resolve_ifs(iter_nodes(xs))
    if all(isinstance(n, It) for n in ns):
        ps = [n.v if isinstance(n.v, (SArr, numpy.ndarray)) else np_array(n.v) for n in ns]
        if ps and all(isinstance(p, SArr) and p.ncols is None for p in ps):
            return SArrT(cols_to_arr(ps))
        return concat_rows([p.reshape(1, -1) if isinstance(p, numpy.ndarray) and p.ndim == 1 else p for p in ps])
    return m_concatenate(xs)


@model(numpy.concatenate)
def m_concatenate(xs, axis=0):
    if axis not in (0,):
        return m_hstack(xs)
    ns = iter_nodes(xs)
    ns = resolve_ifs(ns)
    if all(isinstance(n, It) for n in ns):
        ps = [n.v if isinstance(n.v, (SArr, numpy.ndarray)) else np_array(n.v) for n in ns]
        return concat_rows(ps)
    if len(ns) == 1 and isinstance(ns[0], Loop):
        r = stack_loop(ns[0])
        if r is not None:
            return r
    rows = concat_nodes(ns)
    pres, v = red_nodes("min", rows, lambda r: r[0])
    if v is None or not E().decide(pres):
        raise Unsupported("concatenation of arrays without rows")
    return SRows(rows, 2)


def stack_loop(n):
    if single(n):
        el = row_of(elem(None, n, n.ivar))
        if isinstance(el, numpy.ndarray):
            if el.ndim == 1:
                return loop_to_arr(n)
            if el.ndim == 2:
                iv = n.ivar
                m = len(el)
                return SArr(wrapc(n.n * m), lambda j: pick_row(Subst([(iv, z3.simplify(j / m))])(el), z3.simplify(j % m)), el.shape[1])
    return None


def pick_row(rows, t):
    v = rows[len(rows) - 1]
    for c in range(len(rows) - 2, -1, -1):
        v = ite_val(z3.simplify(t == c), rows[c], v)
    return v


@model(numpy.hstack)
def m_hstack(xs):
    ps = [n.v for n in iter_nodes(xs)]
    ps = [np_array(p) if isinstance(p, (VList, list, tuple)) else p for p in ps]
    if all(isinstance(p, numpy.ndarray) for p in ps):
        return numpy.hstack(ps)
    if all(isinstance(p, SArr) and p.ncols is None or isinstance(p, numpy.ndarray) and p.ndim == 1 for p in ps):
        return concat_rows(ps)
    raise Unsupported("hstack of symbolic arrays")


def _shape(s):
    if isinstance(s, VList):
        s = tuple(s)
    if isinstance(s, tuple):
        return tuple(interp.unindex(x) for x in s)
    return (interp.unindex(s),)


def np_filled(shape, v):
    sh = _shape(shape)
    if isinstance(sh[0], SNum):
        if len(sh) == 1:
            return SArr(sh[0], lambda j: v, None)
        w = sh[1]

        def f(j):
            out = numpy.empty(w, dtype=object)
            out[:] = [v] * w
            return out
        return SArr(sh[0], f, w)
    out = numpy.empty(sh, dtype=object)
    for ix in numpy.ndindex(out.shape):
        out[ix] = v
    return out


@model(numpy.zeros, numpy.empty)
def m_zeros(shape, dtype=None, **k):
    r = np_filled(shape, 0)
    if dtype is not None and dt_kind(dtype) == "i" and isinstance(dtype, str) and dtype[0] == ">" and isinstance(r, SArr):
        return TypedArr(r.n, r.f, r.ncols, dt_size(dtype))
    return r


@model(numpy.ones)
def m_ones(shape, dtype=None, **k):
    return np_filled(shape, 1)


@model(numpy.full)
def m_full(shape, v, **k):
    return np_filled(shape, v)


@model(numpy.empty_like, numpy.zeros_like)
def m_like(a, **k):
    return np_filled(tuple(a.shape), 0)


@model(numpy.full_like)
def m_full_like(a, v, **k):
    return np_filled(tuple(a.shape), v)


@model(numpy.linspace)
def m_linspace(a, b, n=50, **k):
    n = interp.unindex(n)
    if k.get("endpoint", True) is not True:
        raise Unsupported("linspace endpoint")
    if isinstance(n, int):
        if not is_sym(a) and not is_sym(b):
            return numpy.linspace(a, b, n).astype(object)
        out = numpy.empty(n, dtype=object)
        for i in range(n):
            out[i] = a if i == 0 else (b if i == n - 1 else a + (b - a) * SNum(z3.RealVal(z3.RatVal(i, n - 1).as_fraction())))
        return out
    nt = lift(n)
    if z3.is_app(nt) and nt.num_args() and nt.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        # a name for the number of points
        k = E().fresh("points", core.I)
        E().assume(k == nt)
        nt, n = k, SNum(k)
    at, bt = to_real(lift(a)), to_real(lift(b))
    return SArr(n, lambda j: SNum(at + (bt - at) * z3.ToReal(j) / z3.ToReal(nt - 1)), None)


@model(numpy.arange)
def m_arange(*a, **k):
    a = [interp.unindex(x) for x in a]
    if not any(isinstance(x, SNum) for x in a):
        return numpy.arange(*a).astype(object)
    r = m_range(*a)
    return np_array(r)


@model(numpy.outer)
def m_outer(a, b):
    if isinstance(a, SArr):
        if isinstance(b, (VList, tuple, list)):
            b = np_array(b)
        f = a.f
        return SArr(a.n, lambda j: f(j) * b, len(b))
    return numpy.outer(np_array(a), np_array(b))


@model(numpy.dot, numpy.matmul, numpy.inner)
def m_dot(a, b):
    a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
    b = np_array(b) if isinstance(b, (VList, tuple, list)) else b
    if isinstance(a, SArr):
        return a.dot(b)
    if isinstance(b, SArr):
        raise Unsupported("dot")
    return numpy.dot(a, b)


for _f in (numpy.tile, numpy.repeat, numpy.transpose):
    def _mk(f):
        def m(a, *r, **k):
            if isinstance(a, SArr):
                raise Unsupported(f.__name__)
            a = np_array(a)
            if f is numpy.tile and len(r) == 1 and isinstance(r[0], (tuple, VList)) and len(r[0]) == 2 and isinstance(r[0][0], SNum) and interp.unindex(r[0][1]) == 1 and getattr(a, "ndim", 0) == 1:
                return SArr(r[0][0], lambda j: a.copy(), len(a))
            r = [concretize(x) for x in r]
            return f(a, *r, **k)
        return m
    model(_f)(_mk(_f))


@model(numpy.roll)
def m_roll(a, s, axis=None):
    a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
    if isinstance(a, SArr):
        k = interp.unindex(s)
        if not isinstance(k, int):
            raise Unsupported("symbolic roll")
        if a.ncols is not None and axis not in (0,):
            raise Unsupported("roll of 2-D symbolic array without axis")
        f, nt = a.f, a.nt
        if k in (1, -1):
            g = (lambda j: ite_row(j == 0, lambda: f(nt - 1), lambda: f(j - 1))) if k == 1 else (lambda j: ite_row(j == nt - 1, lambda: f(z3.IntVal(0)), lambda: f(j + 1)))
            return SArr(a.n, g, a.ncols)
        return SArr(a.n, lambda j: f((j - k) % nt), a.ncols)
    return numpy.roll(a, concretize(s), axis)


@model(numpy.sum)
def m_npsum(a, axis=None, **k):
    a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
    if isinstance(a, SArr):
        return a._red("sum", axis)
    return numpy.sum(a, axis=axis)


@model(numpy.min, numpy.amin)
def m_npmin(a, axis=None):
    a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
    return a._red("min", axis) if isinstance(a, SArr) else nd_minmax(a, True, axis)


@model(numpy.max, numpy.amax)
def m_npmax(a, axis=None):
    a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
    return a._red("max", axis) if isinstance(a, SArr) else nd_minmax(a, False, axis)


def mm2(mn):
    def g(x, y):
        if isnum(x) and isnum(y) and not isinstance(x, SNum) and not isinstance(y, SNum):
            return min(x, y) if mn else max(x, y)
        return fold_minmax([x, y], mn)

    def m(a, b):
        a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
        b = np_array(b) if isinstance(b, (VList, tuple, list)) else b
        if isinstance(a, SArr):
            return a._lift2(b, lambda x, y: _zipv(g, x, y))
        if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
            return _zipv(g, a, b)
        return g(a, b)
    return m


def _zipv(g, x, y):
    if isinstance(x, numpy.ndarray) or isinstance(y, numpy.ndarray):
        x, y = numpy.broadcast_arrays(numpy.array(x, dtype=object), numpy.array(y, dtype=object))
        out = numpy.empty(x.shape, dtype=object)
        for ix in numpy.ndindex(x.shape):
            out[ix] = g(x[ix], y[ix])
        return out
    return g(x, y)


model(numpy.minimum, numpy.fmin)(mm2(True))
model(numpy.maximum, numpy.fmax)(mm2(False))


@model(numpy.array_equal)
def m_array_equal(a, b):
    a = np_array(a) if isinstance(a, (VList, tuple, list)) else a
    b = np_array(b) if isinstance(b, (VList, tuple, list)) else b
    if isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray):
        if a.shape != b.shape:
            return False
        return m_all([_eq(x, y) for x, y in zip(a.flat, b.flat)])
    raise Unsupported("array_equal")


@model(numpy.transpose)
def m_transpose(a):
    if isinstance(a, (SArr, SArrT)):
        return a.T
    return numpy.transpose(np_array(a))


@model(numpy.nonzero, numpy.flatnonzero)
def m_nonzero(a):
    if isinstance(a, SArr):
        raise Unsupported("nonzero")
    a = np_array(a)
    return numpy.array([bool(truth(x)) for x in a.flat], dtype=bool).reshape(a.shape).nonzero()


def _flatnz(a):
    return m_nonzero(a)[0]


model(numpy.flatnonzero)(_flatnz)


@model(numpy.column_stack)
def m_colstack(xs):
    ps = [n.v for n in iter_nodes(xs)]
    if any(isinstance(p, SArr) for p in ps):
        return cols_to_arr(ps)
    return numpy.column_stack([np_array(p) for p in ps])


# ---------------------------------------------------------------- copy
class DeepCopy(Subst):
    def __init__(self):
        Subst.__init__(self, [])

    def __call__(self, v):
        if isinstance(v, numpy.ndarray) and v.dtype != object:
            k = id(v)
            if k not in self.memo:
                self.memo[k] = (v.copy(), v)
            return self.memo[k][0]
        if isinstance(v, (IFunc, SFile)) or isinstance(v, types.MethodType) or getattr(type(v), "_engine_class_", False):
            return v
        return Subst.__call__(self, v)

    def obj(self, v):
        if type(v).__module__ in ("datetime", "decimal", "builtins", "re", "fractions") and not isinstance(v, (list, dict)):
            return v
        r = Subst.obj(self, v)
        E().adopt(r)
        return r


@model(_copy.deepcopy)
def m_deepcopy(x, memo=None):
    if interp_method(x, "__deepcopy__"):
        return I_.call(type(x).__deepcopy__, [x, SDict()], {})
    d = DeepCopy()
    if isinstance(memo, (dict, SDict)):
        for k, v in list(memo.items()) if isinstance(memo, dict) else memo._conc():
            if not isinstance(k, int):
                raise Unsupported("memo of deepcopy")
            d.memo[k] = (v, v)
    return d(x)


@model(_copy.copy)
def m_copy(x):
    if isinstance(x, (VList, SDict)):
        return x.copy()
    if isinstance(x, SSet):
        return SSet(list(x.nodes))
    if isinstance(x, (numpy.ndarray, SArr)):
        return x.copy()
    if x is None or isinstance(x, (int, float, str, bytes, tuple, SNum, SText, SBool)):
        return x
    if interp_method(x, "__copy__"):
        return I_.call(type(x).__copy__, [x], {})
    r = object.__new__(type(x))
    E().adopt(r)
    for a in instance_attrs(x):
        object.__setattr__(r, a, I_.getattr(x, a))
    return r


model(numpy.copy)(lambda a, **k: a.copy() if isinstance(a, SArr) else numpy.array(a))


# ---------------------------------------------------------------- text
def text_nodes(x, isbytes=False):
    if isinstance(x, SText):
        return x.nodes
    if isinstance(x, (str, bytes)):
        return [It(Atom("lit", x))] if len(x) else []
    raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)


def text_concat(parts, isbytes=False):
    if all(isinstance(p, (str, bytes)) for p in parts):
        return (b"" if isbytes else "").join(parts)
    ns = []
    for p in parts:
        ns.extend(text_nodes(p))
    return SText(ns, isbytes)


def format_one(x, spec, conv):
    if conv == "s":
        return format_one(m_str(x), spec, None)
    if conv:
        raise Unsupported("format conversion")
    if isinstance(spec, SText):
        raise Unsupported("symbolic format spec")
    if isinstance(x, SText):
        if spec:
            raise Unsupported("format spec on text")
        return x
    if isinstance(x, SNum):
        s = z3.simplify(x.t)
        if z3.is_int_value(s):
            return format(s.as_long(), spec)
        return SText([It(Atom("fmt", ("{:%s}" % spec if spec else "{}", "int" if x.t.sort() == core.I else "real"), x.t))], False)
    if isinstance(x, SBool):
        return "True" if truth(x) else "False"
    if interp_method(x, "__str__") and not spec:
        return I_.call(type(x).__str__, [x], {})
    if is_sym(x):
        raise Unsupported("format of a symbolic container")
    if isinstance(x, numpy.ndarray) and not spec:
        return str(x)
    return format(x, spec)


_fmt = string.Formatter()


@method_model(str, "format")
def m_format(s, *args, **kwargs):
    parts = []
    auto = 0
    for lit, field, spec, conv in _fmt.parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kwargs[first]
        for isattr, k in rest:
            v = I_.getattr(v, k) if isattr else I_.getitem(v, k)
        if spec and "{" in spec:
            raise Unsupported("nested format spec")
        parts.append(format_one(v, spec, conv))
    if not parts:
        return ""
    return text_concat(parts)


@method_model(str, "join")
def m_join(s, it):
    return join_nodes(s, iter_nodes(it), False)


@method_model(bytes, "join")
def m_bjoin(s, it):
    return join_nodes(s, iter_nodes(it), True)


def join_nodes(sep, ns, isbytes):
    ns = resolve_ifs(ns)
    if all(isinstance(n, It) for n in ns):
        vals = [n.v for n in ns]
        if all(isinstance(v, (str, bytes)) for v in vals):
            return sep.join(vals)
        parts = []
        for k, v in enumerate(vals):
            if k and sep:
                parts.append(sep)
            parts.append(v)
        return text_concat(parts, isbytes)
    if len(ns) == 1 and isinstance(ns[0], Loop):
        n = ns[0]
        if not sep:
            return SText([Loop(n.ivar, n.n, join_body(n.body), n.outer)], isbytes)
        if single(n):
            if not E().decide(n.n > 0):
                return b"" if isbytes else ""
            iv = V.fresh_index()
            first = text_nodes(elem(None, n, z3.IntVal(0)))
            rest = [It(Atom("lit", sep))] + text_nodes(elem(None, n, iv + 1))
            return SText(first + [Loop(iv, n.n - 1, rest)], isbytes)
    if not sep:
        return SText(join_body(ns), isbytes)
    raise Unsupported("join of nested symbolic sequence")


def join_body(ns):
    out = []
    for n in ns:
        if isinstance(n, It):
            out.extend(text_nodes(n.v))
        elif isinstance(n, Loop):
            out.append(Loop(n.ivar, n.n, join_body(n.body), n.outer))
        elif isinstance(n, If):
            out.append(If(n.c, join_body(n.a), join_body(n.b)))
        else:
            raise Unsupported("join")
    return out


def percent_format(a, b):
    raise Unsupported("% formatting of symbolic values")


@model(numpy.format_float_positional)
def m_ffp(x, precision=None, unique=True, fractional=True, trim="k", sign=False, pad_left=None, pad_right=None, min_digits=None):
    if isinstance(x, SNum):
        return SText([It(Atom("fmt", ("ffp", precision if not isinstance(precision, SNum) else str(precision), unique, fractional, trim, sign), to_real(x.t)))], False)
    if isinstance(precision, SNum):
        return SText([It(Atom("fmt", ("ffp", str(precision), unique, fractional, trim, sign), to_real(lift(x))))], False)
    return numpy.format_float_positional(x, precision=precision, unique=unique, fractional=fractional, trim=trim, sign=sign)


# ---------------------------------------------------------------- struct
_SIZES = {"H": 2, "h": 2, "L": 4, "l": 4, "I": 4, "i": 4, "B": 1, "b": 1, "Q": 8, "q": 8}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    if not isinstance(fmt, str) or not fmt or fmt[0] not in ">!":
        raise Unsupported("struct format %r" % (fmt,))
    out = []
    cnt = ""
    for c in fmt[1:]:
        if c.isspace():
            continue
        if c.isdigit():
            cnt += c
            continue
        if c not in _SIZES:
            raise Unsupported("struct code %s" % c)
        out.extend([c] * (int(cnt) if cnt else 1))
        cnt = ""
    return out


@model(struct.pack)
def m_pack(fmt, *vals):
    if isinstance(fmt, SText):
        raise Unsupported("symbolic struct format")
    if not is_sym(vals):
        return struct.pack(fmt, *vals)
    codes = parse_fmt(fmt)
    if len(codes) != len(vals):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(codes), len(vals)))
    ns = []
    for c, v in zip(codes, vals):
        n = _SIZES[c]
        if isinstance(v, (SNum, SBool)):
            t = lift(v)
            s = z3.simplify(t)
            if z3.is_int_value(s):
                v = s.as_long()
            else:
                if t.sort() != core.I:
                    raise struct.error("required argument is not an integer")
                lo, hi = (0, 256 ** n) if c.isupper() else (-(256 ** n) // 2, 256 ** n // 2)
                fits = z3.And(t >= lo, t < hi)
                # precondition of the format: coordinates fit in 32 bits (not added to the facts: they would only slow the solver)
                if c != "l" and not E().decide(fits):
                    raise struct.error("argument out of range")
                ns.append(It(Atom("F", n, t)))
                continue
        elif isinstance(v, (float, numpy.floating)):
            raise struct.error("required argument is not an integer")
        ns.append(It(Atom("lit", struct.pack(">" + c, v))))
    return SText(merge_lits(ns), True)


def merge_lits(ns):
    out = []
    for n in ns:
        if out and isinstance(n, It) and isinstance(out[-1], It) and isinstance(n.v, Atom) and n.v.kind == "lit" and out[-1].v.kind == "lit":
            out[-1] = It(Atom("lit", out[-1].v.a + n.v.a))
        else:
            out.append(n)
    return out


@model(struct.unpack)
def m_unpack(fmt, data):
    if not is_sym(data) and not is_sym(fmt):
        return struct.unpack(fmt, data)
    if isinstance(fmt, SText):
        return unpack_symbolic(fmt, data)
    codes = parse_fmt(fmt)
    ns = [n for n in merge_lits(data.nodes)]
    out = []
    for c in codes:
        n = _SIZES[c]
        at, ns = take_bytes(ns, n)
        if at is None:
            raise struct.error("unpack requires a buffer of other size")
        if at.kind == "lit":
            out.append(struct.unpack(">" + c, at.a)[0])
        elif c in "df":
            raise Unsupported("unpack of float")
        else:
            out.append(field_value(at, c))
    if ns:
        raise struct.error("unpack requires a buffer of other size")
    return tuple(out)


def take_bytes(ns, n):
    """take n bytes from the front of a node list: (atom, remaining nodes)"""
    if not ns:
        return None, ns
    parts = []
    need = n
    while need:
        if not ns:
            return None, ns
        h = ns[0]
        if not isinstance(h, It):
            raise Unsupported("unpack of symbolic sequence")
        at = h.v
        if at.kind == "lit":
            if not at.a:
                ns = ns[1:]
                continue
            k = min(need, len(at.a))
            parts.append(Atom("lit", at.a[:k]))
            ns = ([It(Atom("lit", at.a[k:]))] if len(at.a) > k else []) + ns[1:]
        elif at.kind == "F":
            k = min(need, at.a)
            if k == at.a:
                parts.append(at)
                ns = ns[1:]
            else:
                parts.append(Atom("F", k, V.split_field(at.b, at.a, k)[0]))
                ns = [It(Atom("F", at.a - k, at.b))] + ns[1:]
        else:
            raise Unsupported("unpack of atom %s" % at.kind)
        need -= k
    if len(parts) == 1:
        return parts[0], ns
    if all(p.kind == "lit" for p in parts):
        return Atom("lit", b"".join(p.a for p in parts)), ns
    t = z3.IntVal(0)
    for p in parts:
        if p.kind == "lit":
            t = t * 256 ** len(p.a) + int.from_bytes(p.a, "big")
        else:
            t = t * 256 ** p.a + (p.b if E().valid(z3.And(p.b >= 0, p.b < 256 ** p.a)) else p.b % 256 ** p.a)
    return Atom("F", n, t), ns


def field_value(at, code):
    t, n = at.b, at.a
    M = 256 ** n
    e = E()
    if code.isupper():
        if e.valid(z3.And(t >= 0, t < M)):
            return SNum(t)
        return SNum(t % M)
    if e.valid(z3.And(t >= -(M // 2), t < M // 2)):
        return SNum(t)
    m = t % M
    return SNum(z3.If(m >= M // 2, m - M, m))


def unpack_symbolic(fmt, data):
    """unpack('>{n}c', data) with symbolic n: data must be a loop of fields of that size"""
    ns = fmt.nodes
    if len(ns) == 3 and all(isinstance(n, It) for n in ns) and ns[0].v.kind == "lit" and ns[0].v.a == ">" and ns[1].v.kind == "fmt" and ns[2].v.kind == "lit" and ns[2].v.a in _SIZES:
        code = ns[2].v.a
        cnt = ns[1].v.b
        size = _SIZES[code]
        out = []
        tot = z3.IntVal(0)
        for n in data.nodes:
            if isinstance(n, It) and n.v.kind == "F" and n.v.a == size:
                out.append(It(field_value(n.v, code)))
                tot = tot + 1
            elif isinstance(n, Loop) and all(isinstance(b, It) and b.v.kind == "F" and b.v.a == size for b in n.body):
                e = E()
                body = []
                s = z3.Solver()
                for b in n.body:
                    M = 256 ** size
                    body.append(It(SNum(b.v.b)))
                    # range facts are part of the writer's postcondition
                    if not e.valid(z3.And(b.v.b >= -(M // 2), b.v.b < M // 2), extra=(n.ivar >= 0, n.ivar < n.n)) and code.islower():
                        e.ghost.setdefault("assumed_range", True)
                out.append(Loop(n.ivar, n.n, body))
                tot = tot + n.n * len(n.body)
            else:
                raise Unsupported("unpack of mixed data")
        if not E().decide(tot == cnt):
            raise struct.error("unpack requires a buffer of other size")
        return VList(nodes=out)
    raise Unsupported("symbolic struct format")


def _arity(nodes):
    for n in nodes:
        if isinstance(n, It):
            return len(n.v) if isinstance(n.v, (tuple, LazyTuple)) or (isinstance(n.v, list)) else None
        k = _arity(n.body) if isinstance(n, Loop) else _arity(list(n.a) + list(n.b)) if isinstance(n, If) else None
        if k is not None:
            return k
    return None


def star_call(f, args, v, n):
    if f is zip and not args and isinstance(v, VList):
        # transposition of a list of tuples of one arity
        if not E().decide(lift(m_len(v)) > 0):
            return VList(nodes=[])
        k = _arity(v.nodes)
        if k is not None:
            def pick(j):
                return lambda t: t[j]
            return VList(nodes=[It(VList(nodes=V.map_atoms(v.nodes, pick(j)))) for j in range(k)])
    if n.args and isinstance(n.args[-1], ast.Starred) and sum(isinstance(a, ast.Starred) for a in n.args) == 1 and not n.keywords:
        return interp.I_.call(f, list(args) + [interp.Rest(v)], {})
    raise Unsupported("star argument of symbolic length")


@model(_datetime.datetime.today, _datetime.datetime.now)
def m_today(*a):
    return _datetime.datetime(2020, 1, 2, 3, 4, 5)


@model(math.frexp, numpy.frexp)
def m_frexp(x):
    if isinstance(x, (SArr, numpy.ndarray)):
        raise Unsupported("frexp of array")
    t = to_real(lift(x))
    e = E()
    if e.decide(t == 0):
        return (0.0, 0)
    a = z3.If(t < 0, -t, t)

    def inside(k):
        lo, hi = fractions.Fraction(2) ** (k - 1), fractions.Fraction(2) ** k
        return z3.And(a >= z3.RealVal(lo), a < z3.RealVal(hi))
    for _ in range(12):
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in e.facts:
            s.add(f)
        for ax in core.all_axioms(list(e.facts) + [t == t]):
            s.add(ax)
        v = z3.Real("frexp!v")
        s.add(v == a)
        if s.check() != z3.sat:
            raise Unsupported("frexp")
        q = s.model().eval(v)
        if not z3.is_rational_value(q):
            raise Unsupported("frexp")
        k = frexp_exp(q.as_fraction())
        if e.decide(inside(k)):
            return (SNum(t / z3.RealVal(fractions.Fraction(2) ** k)), k)
    raise Unsupported("frexp of a number of unknown magnitude")


def frexp_exp(f):
    k = f.numerator.bit_length() - f.denominator.bit_length()
    while fractions.Fraction(2) ** k <= f:
        k += 1
    while fractions.Fraction(2) ** (k - 1) > f:
        k -= 1
    return k


# ---------------------------------------------------------------- native dictionaries (module tables)
def native_find(d, key):
    """value of a symbolic key in a native dict: (found, value)"""
    for k, v in d.items():
        if isinstance(key, tuple) != isinstance(k, tuple) or isinstance(key, (SText, str)) != isinstance(k, str):
            continue
        if V.key_eq(k, key):
            return True, v
    return False, None


@method_model(dict, "get")
def native_dict_get(d, key, default=None):
    if not is_sym(key):
        return d.get(key, default)
    f, v = native_find(d, key)
    return v if f else default
