"""Input streams and files: reading symbolic bytes, and while loops that walk over them.

A file is a sequence of nodes (literal bytes, integer fields, opaque texts, Loops over them).  A while
loop that reads a stream (or moves an index over the bytes) is executed iteration by iteration as
long as the next bytes are known; where the next thing in the stream is a Loop of n pieces, the
iterations that consume one arbitrary piece are executed as the generic iteration of a symbolic loop
(EngineLoops.generic_loop), which summarises their effect over all n pieces.  That an iteration
starts and ends exactly at the boundaries of a piece is checked, not assumed.
"""
import ast
import builtins
import pathlib
import z3
from . import core, interp, models
from . import values as V
from .core import E, Unsupported
from .values import *
from .models import model
from .interp import I_


class Barrier(object):
    """end of the piece that the generic iteration may consume"""

    def __repr__(self):
        return "Barrier"


BARRIER = It(Barrier())


def node_len(n):
    t = lift(seq_len([n], atom_len))
    if not isinstance(n, It):
        E().assume(t >= 0)  # sum of lengths
    return t


def no_less(t, bound):
    """t >= bound (0 or 1) seen from its form: a constant plus lengths"""
    t = z3.simplify(t)
    const = 0
    for x in t.children() if z3.is_add(t) else [t]:
        if z3.is_int_value(x):
            const += x.as_long()
            continue
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            if x.arg(0).as_long() < 0:
                return False
            x = x.arg(1)
        if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() == "strlen" or x.decl().name() in V.RED and V.RED[x.decl().name()][0] == "sum")):
            return False
    return const >= bound


def valid_le(a, b):
    return no_less(b - a, 0) or E().valid(a <= b)


def valid_eq(a, b):
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return not no_less(d, 1) and not no_less(-d, 1) and E().valid(d == 0)


def cut(ns, want):
    """split a node list after `want` (int or term) bytes: (head, tail) or None if it is shorter.
    Never crosses the barrier."""
    e = E()
    want = z3.simplify(lift(want))
    head = []
    acc = z3.IntVal(0)
    ns = list(ns)
    while True:
        left = z3.simplify(want - acc)
        k = left.as_long() if z3.is_int_value(left) else None
        if k == 0:
            return head, ns
        if k is None and valid_eq(left, z3.IntVal(0)):
            return head, ns
        if not ns:
            return None
        n = ns[0]
        if n is BARRIER:
            raise Unsupported("read across the end of a piece of the stream")
        if isinstance(n, If):
            ns = list(n.a if e.decide(n.c) else n.b) + ns[1:]
            continue
        if isinstance(n, It) and n.v.kind == "lit" and not n.v.a:
            ns.pop(0)
            continue
        if isinstance(n, It) and n.v.kind in ("lit", "F") and k is not None:
            size = len(n.v.a) if n.v.kind == "lit" else n.v.a
            if size > k:
                if n.v.kind == "lit":
                    return head + [It(Atom("lit", n.v.a[:k]))], [It(Atom("lit", n.v.a[k:]))] + ns[1:]
                return head + [It(Atom("F", k, split_field(n.v.b, size, k)[0]))], [It(Atom("F", size - k, n.v.b))] + ns[1:]
        size = node_len(n)
        if isinstance(n, It) and n.v.kind == "lit" and k is None:
            # symbolic length that ends inside a literal: find it among the constants
            for j in range(len(n.v.a)):
                if valid_eq(left, z3.IntVal(j)):
                    return head + [It(Atom("lit", n.v.a[:j]))], [It(Atom("lit", n.v.a[j:]))] + ns[1:]
        if not valid_le(size, left):
            if isinstance(n, Loop) and e.valid(n.n <= 0):
                ns.pop(0)
                continue
            if isinstance(n, Loop) and k is not None and e.valid(n.n > 0):
                from .equality import body_at
                iv = V.fresh_index()
                ns = body_at(n, z3.IntVal(0)) + [Loop(iv, n.n - 1, n.subst([(n.ivar, iv + 1)]).nodes(n.body), n.outer)] + ns[1:]
                continue
            raise Unsupported("read of part of an opaque piece")
        head.append(n)
        ns.pop(0)
        acc = z3.simplify(acc + size)


def strip(ns):
    """drop empty texts at the front"""
    while ns and ns[0] is not BARRIER and isinstance(ns[0], It) and ns[0].v.kind == "str" and E().valid(core.F_strlen(ns[0].v.a) == 0):
        ns = ns[1:]
    return ns


class SStream(object):
    """file opened for reading (or reading and writing)"""
    _engine_class_ = True
    _engine_ = True

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.rest = list(path.content._nodes)
        self.out = None
        self.closed = False
        if "+" in mode:
            self.out = path.content = SFile(True)

    def read(self, n=None):
        if n is None or isinstance(n, int) and n < 0:
            if any(x is BARRIER for x in self.rest):
                raise Unsupported("read of the whole stream inside a loop over it")
            head, self.rest = self.rest, []
        else:
            r = cut(self.rest, n)
            if r is None:
                if any(x is BARRIER for x in self.rest):
                    raise Unsupported("read across the end of a piece of the stream")
                head, self.rest = self.rest, []
            else:
                head, self.rest = r
        t = SText(head, True)
        if self.out is not None:
            self.out.write(t)
        return t

    def seek(self, n, whence=0):
        if whence != 1:
            raise Unsupported("seek")
        r = cut(self.rest, n)
        if r is None:
            raise Unsupported("seek past the end of the stream")
        if self.out is not None:
            self.out.write(SText(r[0], True))
        self.rest = r[1]

    def write(self, x):
        if self.out is None:
            raise OSError("not writable")
        r = cut(self.rest, models.m_len(x))
        self.rest = r[1] if r is not None else []
        self.out.write(x)

    def close(self):
        if self.out is not None:
            self.out.write(SText([n for n in self.rest if n is not BARRIER], True))
            self.rest = []
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SPath(object):
    """path of a file with symbolic content"""
    _engine_class_ = True
    _engine_ = True

    def __init__(self, content):
        self.content = SFile(True)
        self.content._nodes = list(content.nodes) if isinstance(content, SText) else [It(Atom("lit", content))]

    def __fspath__(self):
        return self


@model(builtins.open)
def m_open(path, mode="r", *a, **k):
    if isinstance(path, SPath):
        if "b" not in mode:
            raise Unsupported("text file")
        if "w" in mode:
            path.content = SFile(True)
            return path.content
        return SStream(path, mode)
    return open(path, mode, *a, **k)


# ---------------------------------------------------------------- slices of bytes
def text_slice(t, k):
    ns = list(t.nodes)
    e = E()
    if isinstance(k, slice):
        if k.step is not None:
            raise Unsupported("step in a slice of text")
        total = None

        def pos(x):
            nonlocal total
            x = z3.simplify(lift(interp.unindex(x)))
            neg = x.as_long() < 0 if z3.is_int_value(x) else not valid_le(z3.IntVal(0), x) and e.decide(x < 0)
            if neg:
                if total is None:
                    total = lift(t.sym_len())
                x = z3.simplify(total + x)
                if not e.valid(x >= 0):
                    raise Unsupported("slice before the start of text")
            return x
        if k.start is not None:
            a = pos(k.start)
            r = cut(ns, a)
            if r is None:
                return SText([], t.isbytes)
            ns = r[1]
        else:
            a = z3.IntVal(0)
        if k.stop is not None:
            b = pos(k.stop)
            if not valid_le(a, b):
                raise Unsupported("slice of negative length")
            r = cut(ns, b - a)
            if r is not None:
                ns = r[0]
        return SText(ns, t.isbytes)
    k = interp.unindex(k)
    if not t.isbytes:
        raise Unsupported("subscript of symbolic text")
    if isinstance(k, int) and k == -1:
        while ns:
            n = ns[-1]
            if isinstance(n, If):
                ns = ns[:-1] + list(n.a if e.decide(n.c) else n.b)
                continue
            if isinstance(n, It) and n.v.kind == "lit":
                if n.v.a:
                    return n.v.a[-1]
                ns.pop()
                continue
            if isinstance(n, It) and n.v.kind == "str":
                if e.decide(core.F_strlen(n.v.a) == 0):
                    ns.pop()
                    continue
                # precondition of texts: printable characters, no NUL
                return SNum(core.F_lastchar(n.v.a))
            if isinstance(n, It) and n.v.kind == "F":
                return SNum(n.v.b % 256)
            raise Unsupported("last byte of a composed text")
        raise IndexError("index out of range")
    if isinstance(k, int) and k >= 0 or isinstance(k, SNum):
        r = cut(ns, k)
        if r is None:
            raise IndexError("index out of range")
        r = cut(r[1], 1)
        if r is None:
            raise IndexError("index out of range")
        n = r[0][0]
        return n.v.a[0] if n.v.kind == "lit" else SNum(n.v.b % 256)
    raise Unsupported("subscript of symbolic text")


models.text_getitem = text_slice


# ---------------------------------------------------------------- loops that walk over a stream
def visible(env):
    while env is not None:
        for v in env.vars.values():
            yield v
        env = env.parent


def stream_of(s, env):
    """the stream that the loop reads: the only one among the variables it uses"""
    names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
    out = []
    v = env
    while v is not None:
        for nm in names & set(v.vars):
            x = v.vars[nm]
            if isinstance(x, SStream) and all(x is not y for y in out):
                out.append(x)
        v = v.parent
    return out[0] if len(out) == 1 else None


def head_loop(ns):
    from .equality import norm_head
    r = norm_head(ns)
    return r


def try_stream(I, s, env):
    """one step over a Loop at the front of the stream; returns None (not applicable), ('go',) or (signal,)"""
    e = E()
    st = stream_of(s, env)
    if st is None or not st.rest or st.rest[0] is BARRIER:
        return cursor_step(I, s, env) if st is None else None
    st.rest = head_loop(strip(st.rest))
    if not st.rest or not isinstance(st.rest[0], Loop):
        return None
    L, tail = st.rest[0], st.rest[1:]

    def run(iv):
        from .equality import body_at
        save = st.rest
        st.rest = body_at(L, iv.t) + [BARRIER]
        sig = None
        for _ in range(60):
            st.rest = strip(st.rest)
            if st.rest[0] is BARRIER:
                break
            r = try_stream(I, s, env)
            if r is not None and r[0] != "go":
                return r[0]
            if r is not None:
                continue
            if not interp.truth(I.ev(s.test, env)):
                raise Unsupported("loop over a stream ends within it")
            sig = I.block(s.body, env)
            if sig not in (None, "continue"):
                return sig
        else:
            raise Unsupported("loop over a stream does not advance")
        st.rest = save
        return None
    r = e.generic_loop(("stream", id(s), I.depth), L.n, run)
    if r is not None:
        return (r,)
    st.rest = tail
    return ("go",)


# ---------------------------------------------------------------- index moving over bytes:  while pos < len(data)
def cursor_of(s, env):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq))):
        return None
    names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
    stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    datas = [n for n in {n.id for n in ast.walk(s) if isinstance(n, ast.Name)} if n in env.vars and isinstance(env.vars[n], SText) and env.vars[n].isbytes and n not in stored]
    curs = [n for n in names & stored if n in env.vars and (isinstance(env.vars[n], int) or isinstance(env.vars[n], SNum))]
    if len(datas) != 1 or len(curs) != 1:
        return None
    return datas[0], curs[0]


def cursor_step(I, s, env):
    e = E()
    c = cursor_of(s, env)
    if c is None:
        return None
    dn, cn = c
    data = env.vars[dn]
    cur = z3.simplify(lift(interp.unindex(env.vars[cn])))
    pre, acc = [], z3.IntVal(0)
    ns = list(data.nodes)
    hit = None
    while ns:
        n = ns[0]
        if isinstance(n, If):
            ns = list(n.a if e.decide(n.c) else n.b) + ns[1:]
            continue
        if isinstance(n, Loop) and e.valid(acc == cur) and not e.valid(node_len(n) == 0):
            hit = n
            break
        pre.append(n)
        acc = z3.simplify(acc + node_len(n))
        ns.pop(0)
    if hit is None:
        return None
    from .equality import body_at, const_n
    L, tail = hit, ns[1:]
    k = const_n(L.n)
    if k is not None and k <= 64:
        env.vars[dn] = SText(pre + head_loop([L]) + tail, True)
        return ("go",)
    total = node_len(L)

    def run(iv):
        done = Loop(V.fresh_index(), iv.t, [], L.outer)
        done.body = L.subst([(L.ivar, done.ivar)]).nodes(L.body)
        more = Loop(V.fresh_index(), L.n - 1 - iv.t, [], L.outer)
        more.body = L.subst([(L.ivar, more.ivar + iv.t + 1)]).nodes(L.body)
        piece = body_at(L, iv.t)
        p0 = z3.simplify(acc + node_len(done))
        p1 = p0
        for x in piece:
            p1 = p1 + node_len(x)
        p1 = z3.simplify(p1)
        split = SText(pre + [done] + piece + [more] + tail, True)
        e.assume(node_len(more) >= 0)
        env.vars[dn] = split
        I.store(env, cn, SNum(p0))
        sig = None
        for _ in range(60):
            now = z3.simplify(lift(interp.unindex(env.vars[cn])))
            if valid_eq(now, p1):
                break
            if not (valid_le(p0, now) and valid_le(now + 1, p1)):
                raise Unsupported("index leaves the piece of the data")
            r = cursor_step(I, s, env)
            if r is not None:
                if r[0] != "go":
                    return r[0]
                continue
            e.assume(lift(models.m_len(split)) > now)
            t = I.ev(s.test, env)
            if not (isinstance(t, SBool) and e.valid(t.t)) and not interp.truth(t):
                raise Unsupported("loop over data ends within it")
            sig = I.block(s.body, env)
            if sig not in (None, "continue"):
                return sig
        else:
            raise Unsupported("loop over data does not advance")
        env.vars[dn] = data
        return None
    r = e.generic_loop(("cursor", id(s), I.depth), L.n, run)
    env.vars[dn] = data
    if r is not None:
        return (r,)
    I.store(env, cn, SNum(z3.simplify(acc + total)))
    return ("go",)
