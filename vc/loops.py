"""Symbolic loops: body executed once on a generic iteration, effects summarised inductively.

For `for x in S: body` with S of symbolic length the engine explores
  choice 0: a generic iteration i (0 <= i < n): every path through the body is recorded as an
            effect (appends to outer containers, writes to outer variables/attributes, pointwise
            list updates) under its path condition;
  choice 1: the code after the loop, with the summary  acc = acc0 ++ flatmap(i<n, effect(i))  etc.;
  choice 2: (if some path leaves the loop early) that iteration again, with the state the summary
            gives for its start, continuing after the exit.
The summary is the loop invariant; it is inductive by construction when the effect of an iteration
does not read what the loop modifies.  If it does (read/write conflict), the run restarts with the
candidate invariant assumed at the loop head, and the new effect must coincide with the candidate.
"""
import z3
import numpy
from . import core
from .core import Engine, Unsupported, PathEnd, Restart, E, I, R, B
from .values import *
from . import values as V


class LoopInfo(object):
    def __init__(self, ivar):
        self.ivar = ivar
        self.paths = []
        self.has_exit = False
        self.havoc = {}  # loc -> ('hv', None) | ('last', template) | ('sum', term) | ('red', kind, term) | ('prefix', nodes)
        self.reads = set()
        self.len_reads = set()
        self.written = set()
        self.hvsyms = {}


class LoopCtx(object):
    def __init__(self, key, info, n, learning):
        e = E()
        self.key, self.info, self.n, self.learning = key, info, n, learning
        self.ivar = info.ivar
        self.start_uid = e.uid_counter
        self.start_dec = len(e.decisions)
        self.deltas = {}
        self.writes = {}
        self.points = {}
        self.reads = set()
        self.len_reads = set()
        self.heads = {}
        self.prefix = {}
        self.elems_before = {(oid, id(x[1])): _sexpr(x[3]) for oid, x in e.elem_of.items() if not isinstance(x[3], (numpy.ndarray, SArr))}


def _term_sexpr(t, sub):
    if sub:
        t = z3.substitute(t, *sub)
    return z3.simplify(t).sexpr()


def _sexpr(v, depth=0, sub=()):
    """canonical string of a value for quick sameness tests (None if unknown)"""
    if isinstance(v, (SNum, SBool)):
        return _term_sexpr(v.t, sub)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return repr(v)
    if isinstance(v, Poison):
        return "poison%d" % id(v)
    if z3.is_expr(v):
        return _term_sexpr(v, sub)
    if isinstance(v, tuple):
        return "(" + ",".join(_sexpr(x, depth + 1, sub) for x in v) + ")"
    if isinstance(v, numpy.ndarray):
        return "nd%s[" % (v.shape,) + ",".join(_sexpr(x, depth + 1, sub) for x in v.flat) + "]"
    if isinstance(v, SArr):
        return "arr(%s;%s)" % (_sexpr(v.n, depth, sub), _sexpr(v.f(z3.Int("jj!%d" % depth)), depth + 1, sub))
    if isinstance(v, Atom):
        return "%s{%s,%s}" % (v.kind, _sexpr(v.a, depth, sub), _sexpr(v.b, depth, sub))
    if isinstance(v, SText):
        return "T" + _nodes_sexpr(v.nodes, depth + 1, sub)
    if isinstance(v, VList):
        return "L" + _nodes_sexpr(v._nodes, depth + 1, sub)
    if isinstance(v, SSet):
        return "S" + _nodes_sexpr(v._nodes, depth + 1, sub)
    if isinstance(v, SDict):
        return "D" + repr([(_sexpr(a, depth + 1, sub), _sexpr(b, depth + 1, sub)) for a, b in v._entries]) + _nodes_sexpr(v._events, depth + 1, sub) + str(id(v._base) if v._base else "")
    if isinstance(v, (list,)):
        return "l[" + ",".join(_sexpr(x, depth + 1, sub) for x in v) + "]"
    if isinstance(v, type) or callable(v) and not hasattr(type(v), "__slots__"):
        return "obj%d" % id(v)
    if depth > 12:
        return "obj%d" % id(v)
    from .interp import instance_attrs
    return type(v).__name__ + "{" + ",".join(a + "=" + _sexpr(getattr(v, a), depth + 1, sub) for a in instance_attrs(v)) + "}"


def _nodes_sexpr(ns, depth=0, sub=()):
    out = []
    for n in ns:
        if isinstance(n, It):
            out.append(_sexpr(n.v, depth + 1, sub))
        elif isinstance(n, Loop):
            bv = z3.Int("bv!%d" % depth)
            out.append("loop(%s: %s)" % (_term_sexpr(n.n, sub), _nodes_sexpr(n.body, depth + 1, tuple(sub) + ((n.ivar, bv),))))
        elif isinstance(n, If):
            out.append("if(%s,%s,%s)" % (_term_sexpr(n.c, sub), _nodes_sexpr(n.a, depth + 1, sub), _nodes_sexpr(n.b, depth + 1, sub)))
        else:
            out.append("while(%s)" % (_nodes_sexpr(n.body, depth + 1, sub)))
    return "[" + ";".join(out) + "]"


def same(a, b):
    if a is b:
        return True
    try:
        return _sexpr(a) == _sexpr(b)
    except (AttributeError, RecursionError):
        return False


def nodes_same(a, b):
    if len(a) != len(b):
        return False
    return _nodes_sexpr(a) == _nodes_sexpr(b)


class EngineLoops(Engine):
    def _reset_path(self):
        # what a loop's summary recorded on an earlier path refers to that path's objects
        if not hasattr(self, "past"):
            self.past = {}
        for u, o in getattr(self, "objs", {}).items():
            if getattr(o, "_uid", None) is None and V.is_object(o):
                self.past[id(o)] = (o, u)
        Engine._reset_path(self)
        self.elem_cache = {}
        self.elem_of = {}
        self.ghosts = {}

    # -------- object bookkeeping
    def uid_any(self, o):
        u = getattr(o, "_uid", None)
        if u is not None:
            return u
        return self.uids.get(id(o))

    def adopt(self, o):
        if self.uid_any(o) is None:
            self.register(o)

    def ghost_of(self, o):
        g = self.ghosts.get(id(o))
        return g[1] if g else None

    def set_ghost(self, o, g):
        self.ghosts[id(o)] = (o, g)

    def _is_outer(self, u, ctx):
        return u is not None and u <= ctx.start_uid

    def outer_ctx(self, obj):
        if not self.loops:
            return None
        c = self.loops[-1]
        return c if self._is_outer(obj._uid, c) else None

    def ctx_writes_dict(self, d):
        c = self.outer_ctx(d)
        return c is not None

    def note_mut(self, obj):
        c = self.outer_ctx(obj)
        if c is None:
            return None
        if obj._uid not in c.deltas:
            c.deltas[obj._uid] = (obj, [])
        return c.deltas[obj._uid][1]

    def mark_opaque(self, obj, why):
        raise Unsupported(why)

    def note_read_mut(self, obj, length=False):
        for c in reversed(self.loops):
            if self._is_outer(obj._uid, c):
                (c.len_reads if length else c.reads).add(obj._uid)
                break

    def array_mutation(self, arr):
        if self.loops:
            u = self.uid_any(arr)
            c = self.loops[-1]
            if u is None or self._is_outer(u, c):
                # an SArr not registered may have been created inside the body; only
                # allow arrays registered after the loop started
                raise Unsupported("in-place change of an outer array in a symbolic loop")

    def pointwise_set(self, lst, k, v):
        if not self.loops:
            return False
        c = self.loops[-1]
        if not self._is_outer(lst._uid, c):
            return False
        if not z3.is_expr(c.ivar) or not z3.simplify(k.t - c.ivar).eq(z3.IntVal(0)):
            raise Unsupported("update of an outer list at an index other than the loop variable")
        ns = lst._nodes
        if len(ns) != 1 or not isinstance(ns[0], Loop) or len(ns[0].body) != 1 or not isinstance(ns[0].body[0], It):
            raise Unsupported("pointwise update of a composed list")
        if not self.valid(z3.And(k.t < ns[0].n, k.t >= 0)):
            raise Unsupported("pointwise update out of range")
        c.points[lst._uid] = (lst, v)
        key = (id(ns[0].body[0]), z3.simplify(k.t).sexpr())
        self.elem_cache[key] = (v, ns[0].body[0])
        return True

    # -------- locations (variables and attributes)
    def loc_read(self, u, name):
        c = self.loops[-1]
        loc = (u, name)
        if u is not None and u <= c.start_uid and loc not in c.writes:
            c.reads.add(loc)

    def loc_write(self, u, name, value):
        c = self.loops[-1]
        if u is None:
            raise Unsupported("write to an untracked object in a symbolic loop")
        if u <= c.start_uid:
            c.writes[(u, name)] = value

    def get_loc(self, loc):
        o = self.objs.get(loc[0])
        if o is None:
            raise Unsupported("lost track of an object")
        from .interp import Env
        if isinstance(o, Env):
            return o.vars.get(loc[1], V_UNSET)
        return getattr(o, loc[1], V_UNSET)

    def set_loc(self, loc, value, log=True):
        o = self.objs.get(loc[0])
        if o is None:
            raise Unsupported("lost track of an object")
        from .interp import Env
        if log and self.loops:
            self.loc_write(loc[0], loc[1], value)
        if isinstance(o, Env):
            if value is V_UNSET:
                o.vars.pop(loc[1], None)
            else:
                o.vars[loc[1]] = value
        else:
            object.__setattr__(o, loc[1], value)

    # -------- the loop itself
    def generic_loop(self, tag, n, run, key_extra=None):
        """run(ivar) executes the body for the generic index and returns None | 'break'.
        Returns 'exit-break' if the loop was left by break, else None. n: z3 Int term."""
        n = z3.simplify(n)
        key = (tag, self.prefix_key(), key_extra)
        info = self.table.get(key)
        if info is None:
            info = self.table[key] = LoopInfo(z3.Int("ix!L%d" % len(self.table)))
        info.pos = self.pos
        run_first = key not in self.loop_runs
        if run_first:
            self.loop_runs[key] = True
            info.paths = []
            info.has_exit = False
            info.reads = set()
            info.len_reads = set()
            info.written = set()
        opt = self.choose(lambda: 3 if info.has_exit else 2)
        if opt == 0:
            self.learn(info, key, n, run)
            raise PathEnd()
        if opt == 1:
            self.summary(info, key, n)
            return None
        return self.exit_iteration(info, key, n, run)

    def head_state(self, info, ctx, prefix_too):
        """install loop-head values of havocked locations / prefix contents at index ctx.ivar"""
        i = ctx.ivar
        for loc, h in info.havoc.items():
            if h[0] == "prefix":
                o = self.objs.get(loc)
                if o is None:
                    raise Unsupported("lost track of a container")
                k = V.fresh_index()
                nodes = self.relink(h[1], info, k, ctx.start_uid)
                base = o._events if isinstance(o, SDict) else o._nodes
                new = base + [Loop(k, i, nodes, ctx.start_uid)]
                ctx.prefix[loc] = [Loop(k, i, nodes, ctx.start_uid)]
                if isinstance(o, SDict):
                    o._events = new
                else:
                    o._nodes = new
            else:
                v0 = self.get_loc(loc)
                ctx.heads[loc] = v0
                self.set_loc(loc, self.head_value(info, loc, h, v0, i, ctx.start_uid), log=False)

    def head_value(self, info, loc, h, v0, i, start_uid):
        kind = h[0]
        if kind == "hv":
            return self.hv_value(info, loc, v0)
        if kind == "last":
            if self.decide(i == 0):
                return v0
            return Subst([(info.ivar, i - 1)], (start_uid, lambda v: True))(h[1])
        if kind == "sum":
            return self.sum_value(v0, info.ivar, i, h[1])
        raise Unsupported("loop-carried value of kind %s read in the loop" % kind)

    def sum_value(self, v0, ivar, upto, t):
        def one(a, b):
            bt = lift(b)
            k = V.fresh_index()
            s = V.reduce_term("sum", k, upto, z3.substitute(bt, (ivar, k)))
            return a + SNum(s)
        if isinstance(t, numpy.ndarray):
            out = numpy.empty(t.shape, dtype=object)
            for ix in numpy.ndindex(t.shape):
                out[ix] = one(v0[ix], t[ix])
            return out
        return one(v0, t)

    def hv_value(self, info, loc, v0):
        args = self.index_args()
        if isinstance(v0, (str, bytes, SText)):
            nm = "hv!%s!%s!text%s" % (info.ivar, loc[1], loc[0])
            f = z3.Function(nm, *([a.sort() for a in args] + [core.StrSort]))
            info.hvsyms[(loc, "text")] = f(*args)
            return SText([It(Atom("str", f(*args)))], isinstance(v0, bytes) or isinstance(v0, SText) and v0.isbytes)

        def mk(tag, x):
            if isinstance(x, (SBool, bool)):
                sort = B
            else:
                t = lift(x)
                sort = t.sort()
            nm = "hv!%s!%s!%s" % (info.ivar, loc[1], tag) + str(loc[0])
            key = (loc, tag)
            if key in info.hvsyms and info.hvsyms[key].sort() != sort and info.hvsyms[key].sort() == R:
                sort = R
            if (loc, "real") in info.hvsyms and sort == I:
                sort = R
            f = z3.Function(nm + ("r" if sort == R else ""), *([a.sort() for a in args] + [sort]))
            t = f(*args)
            info.hvsyms[key] = t
            return wrap(t)
        if isinstance(v0, numpy.ndarray):
            out = numpy.empty(v0.shape, dtype=object)
            for ix in numpy.ndindex(v0.shape):
                out[ix] = mk(str(ix), v0[ix])
            return out
        if isinstance(v0, tuple):
            return tuple(mk(str(k), x) for k, x in enumerate(v0))
        return mk("", v0)

    def relink(self, nodes, info, idx, start_uid):
        return Subst([(info.ivar, idx)] if idx is not None else [], (start_uid, lambda v: True)).nodes(nodes)

    def learn(self, info, key, n, run):
        i = info.ivar
        self.assume(z3.And(i >= 0, i < n))
        ctx = LoopCtx(key, info, n, True)
        self.loops.append(ctx)
        ok = False
        try:
            self.head_state(info, ctx, True)
            sig = run(SNum(i))
            ok = True
        except (PathEnd, Restart):
            raise
        except Unsupported:
            if self.conflicts(info, ctx) - set(info.havoc):
                self.refine(info, ctx)
            raise
        except Exception as ex:  # Python exception of the program: leaves the loop
            sig = "raise"
        finally:
            if self.loops and self.loops[-1] is ctx:
                self.loops.pop()
        self._merge_rw(info, ctx)
        if sig in ("break", "return", "raise"):
            info.has_exit = True
        elif sig == "deferred":
            pass
        else:
            rec = {
                "conds": list(self.decisions[ctx.start_dec:]),
                "deltas": {u: self.normal_events(list(d[1]), ctx, u) for u, d in ctx.deltas.items()},
                "writes": dict(ctx.writes),
                "points": {u: v for u, (l, v) in ctx.points.items()},
                "elems": self.changed_elems(ctx),
                "start_uid": ctx.start_uid,
                "at": self.prefix_key(),
            }
            info.paths.append(rec)
        new = self.conflicts(info, ctx) - set(info.havoc)
        if new:
            self.refine(info, ctx, new)

    def changed_elems(self, ctx):
        """elements of outer lists whose content was changed by this iteration"""
        out = {}
        for oid, (lst, node, idx, o) in list(self.elem_of.items()):
            if isinstance(o, numpy.ndarray) or isinstance(o, SArr):
                continue
            if (oid, id(node)) in ctx.elems_before:
                before = ctx.elems_before[(oid, id(node))]
                if before == _sexpr(o):
                    continue
            elif node.outer is not None and node.outer > ctx.start_uid:
                continue
            else:
                fresh = node.inst(0, idx)
                if same(fresh, o):
                    continue
            owners = [(u, w, k) for u, w in list(self.objs.items()) if isinstance(w, VList) and u <= ctx.start_uid for k, nd in enumerate(w._nodes) if nd is node]
            if not owners:
                if self._created_inside(node, ctx):
                    continue
                raise Unsupported("element of an unowned sequence changed in a symbolic loop")
            if node.derived:
                raise Unsupported("element of a shifted view changed in a symbolic loop")
            if not z3.simplify(idx - ctx.ivar).eq(z3.IntVal(0)):
                raise Unsupported("element of outer list changed at a foreign index")
            for u, w, k in owners:
                out[(u, k)] = o
        return out

    def _created_inside(self, node, ctx):
        return node.outer is not None and node.outer > ctx.start_uid

    def _merge_rw(self, info, ctx):
        info.reads |= ctx.reads
        info.len_reads |= ctx.len_reads
        info.written |= set(ctx.writes) | set(ctx.deltas)
        info.points_written = getattr(info, "points_written", set()) | set(ctx.points)

    def conflicts(self, info, ctx):
        reads = info.reads | ctx.reads | info.len_reads | ctx.len_reads
        written = info.written | set(ctx.writes) | set(ctx.deltas)
        return reads & written

    def refine(self, info, ctx, new=None):
        if new is None:
            new = self.conflicts(info, ctx) - set(info.havoc)
        for loc in new:
            if isinstance(loc, tuple):
                info.havoc[loc] = ("hv", None)
            else:
                info.havoc[loc] = ("prefix", self.candidate_nodes(info, ctx, loc))
        self.loop_runs.pop(ctx.key, None)
        raise Restart(info.pos)

    def candidate_nodes(self, info, ctx, uid):
        for p in info.paths:
            if uid in p["deltas"]:
                return p["deltas"][uid]
        d = ctx.deltas.get(uid)
        return list(d[1]) if d else []

    # -------- after the loop
    def merged(self, info, get, merge, default):
        """merge per-path values into one: get(path) or default"""
        vals = [(p, get(p)) for p in info.paths]
        if not vals:
            return default()
        res = None
        for p, v in reversed(vals):
            if v is None:
                v = default()
            if res is None:
                res = v
            else:
                c = z3.And(*p["conds"]) if p["conds"] else z3.BoolVal(True)
                res = merge(c, v, res)
        return res

    def summary(self, info, key, n):
        if not self.valid(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        start_uid = self.uid_counter
        if not info.paths:
            # every path of the body leaves the loop: the loop continues only when n == 0
            self.assume(n <= 0)
            return
        ivar = info.ivar
        uids = sorted({u for p in info.paths for u in p["deltas"]})

        for u in uids:
            nodes = self.merged(info, lambda p: p["deltas"].get(u), merge_nodes, lambda: [])
            h = info.havoc.get(u)
            if h is not None and not nodes_same(h[1], nodes):
                if getattr(info, "tries", 0) < 4:
                    info.tries = getattr(info, "tries", 0) + 1
                    info.havoc[u] = ("prefix", nodes)
                    raise Restart(info.pos)
                raise Unsupported("effect of the loop depends on its own accumulator")
            o = self.objs.get(u)
            if o is None:
                raise Unsupported("lost track of a container")
            k = V.fresh_index()
            loop = [Loop(k, n, self.relink(nodes, info, k, start_uid), start_uid)]
            d = self.note_mut(o)
            if isinstance(o, SDict):
                o._events = o._events + loop
            else:
                o._nodes = o._nodes + loop
            if d is not None:
                d.extend(loop)
        # element-wise updates of lists of objects
        elems = sorted({k for p in info.paths for k in p["elems"]})
        newnodes = {}
        for (u, pos) in elems:
            lst = self.objs.get(u)
            node = lst._nodes[pos]
            if id(node) not in newnodes:
                for oid, (_, nd, ix, o) in self.elem_of.items():
                    if nd is node:
                        raise Unsupported("an element of the list is also held separately")
                k = V.fresh_index()
                old = lambda: node.inst(0, ivar)
                vals = [(p, p["elems"].get((u, pos))) for p in info.paths]
                res = None
                for p, v in reversed(vals):
                    v = v if v is not None else old()
                    c = z3.And(*p["conds"]) if p["conds"] else z3.BoolVal(True)
                    res = v if res is None else merge_objects(c, v, res)
                if not self.valid(node.n == n):
                    raise Unsupported("partial update of the elements of a list")
                new = Subst([(ivar, k)], (start_uid, lambda v: True))(res)
                newnodes[id(node)] = (Loop(k, node.n, [It(new)], start_uid), node)
            if self.outer_ctx(lst) is not None:
                raise Unsupported("nested update of elements of an outer list")
            lst._nodes = lst._nodes[:pos] + [newnodes[id(node)][0]] + lst._nodes[pos + 1 :]
        # pointwise list updates
        pts = sorted({u for p in info.paths for u in p["points"]})
        for u in pts:
            lst = self.objs.get(u)
            if lst is None:
                raise Unsupported("lost track of a list")
            if u in info.written or (u in info.reads):
                raise Unsupported("list both updated pointwise and otherwise used in a loop")
            node = lst._nodes[0]
            old = node.inst(0, ivar)
            v = self.merged(info, lambda p: p["points"].get(u), merge_values, lambda: old)
            k = V.fresh_index()
            v = Subst([(ivar, k)], (start_uid, lambda x: True))(v)
            if not self.valid(node.n == n):
                v = merge_values(k < n, v, node.inst(0, k))
            c = self.outer_ctx(lst)
            if c is not None:
                raise Unsupported("nested pointwise update of an outer list")
            lst._nodes = [Loop(k, node.n, [It(v)], node.outer)]
        # variables and attributes
        locs = sorted({l for p in info.paths for l in p["writes"]}, key=str)
        upd = []
        for loc in locs:
            try:
                upd.append((loc, self.loc_summary(info, loc, n, start_uid)))
            except Unsupported as ex:
                from .interp import Env
                if not isinstance(self.objs.get(loc[0]), Env):
                    raise
                # a local variable: usually not used after the loop; reading it gives up
                upd.append((loc, lambda loc=loc, ex=ex: self.set_loc(loc, Poison(str(ex)))))
        for loc, f in upd:
            f()

    def normal_events(self, nodes, ctx, uid):
        """group-by events: under `k not in d`, `d[k] = [x]` inserts x and `d[k] = v` adds v"""
        if not nodes or not isinstance(self.objs.get(uid), SDict):
            return nodes
        absent = []
        for c in self.decisions[ctx.start_dec:]:
            if z3.is_not(c) and z3.is_app(c.arg(0)):
                m = self.members.get(c.arg(0).decl().name())
                if m is not None and m[0] == uid:
                    absent.append(m[1])
        out = []
        for nd in nodes:
            if isinstance(nd, It) and nd.v[0] in ("new", "set") and any(same(k, nd.v[1]) for k in absent):
                nd = It(("ins" if nd.v[0] == "new" else "add",) + tuple(nd.v[1:]))
            out.append(nd)
        return out

    def loc_summary(self, info, loc, n, start_uid):
        v0 = self.get_loc(loc)
        h = info.havoc.get(loc)
        ivar = info.ivar
        hv_terms = [t for (l, tag), t in info.hvsyms.items() if l == loc]

        def headval(p):
            # value at the head, for paths which do not write it
            if h is None:
                return ("keep",)
            if h[0] == "hv":
                return self.hv_value_at(info, loc, v0)
            if h[0] == "sum":
                return ("keep",)
            return ("keep",)
        wrote = [loc in p["writes"] for p in info.paths]
        if h is None or h[0] == "last":
            # never read before written in an iteration (or closed form assumed): last value
            if not all(wrote):
                if h is None and all(isinstance(p["writes"].get(loc, v0), type(v0)) and same(p["writes"].get(loc, v0), v0) for p in info.paths):
                    return lambda: None
                vals = [p["writes"][loc] for p, w in zip(info.paths, wrote) if w]
                const = all(self.loop_const(v, ivar) for v in vals) and all(same(vals[0], v) for v in vals)
                if const and h is None:
                    # flag-like: value set at least once, or unchanged
                    conds = [z3.And(*p["conds"]) if p["conds"] else z3.BoolVal(True) for p, w in zip(info.paths, wrote) if w]
                    c = z3.Or(*conds)
                    ex = self.exists_term(c, ivar, n)
                    val = Subst([], (start_uid, lambda x: True))(vals[0])

                    def setflag():
                        if self.decide(ex):
                            self.set_loc(loc, val)
                    return setflag
                raise Unsupported("variable conditionally overwritten in a symbolic loop: %s" % (loc[1],))
            v = self.merged(info, lambda p: p["writes"][loc], self.merge_any, lambda: None)
            if h is not None and not same(v, h[1]):
                if getattr(info, "tries", 0) < 4:
                    info.tries = getattr(info, "tries", 0) + 1
                    info.havoc[loc] = ("last", v)
                    raise Restart(info.pos)
                raise Unsupported("loop-carried variable without closed form: %s" % (loc[1],))

            def setlast():
                if self.decide(n > 0):
                    self.set_loc(loc, Subst([(ivar, n - 1)], (start_uid, lambda x: True))(v))
                else:
                    if v0 is not V_UNSET:
                        self.set_loc(loc, v0)
            return setlast
        # havocked numeric location
        if h[0] == "sum":
            v = h[1]
            # verify: after - head == term
            return lambda: self.set_loc(loc, self.sum_value(v0, ivar, n, v))
        if h[0] == "red":
            return lambda: self.set_loc(loc, self.red_value(v0, h, ivar, n))
        if (loc, "text") in info.hvsyms:
            return self.text_summary(info, loc, n, start_uid, v0)
        # h == hv: classify
        hv = self.hv_value_at(info, loc, v0)
        vals = self.merged(info, lambda p: p["writes"].get(loc, hv), self.merge_any, lambda: hv)
        kind, t = self.classify(vals, hv, hv_terms)
        if kind == "same":
            return lambda: None
        used_elsewhere = self.hv_used(info, loc, hv_terms)
        if kind == "last":
            info.havoc[loc] = ("last", vals)
            raise Restart(info.pos)
        if kind == "sum":
            if used_elsewhere:
                info.havoc[loc] = ("sum", t)
                info.sum_checked = getattr(info, "sum_checked", {})
                raise Restart(info.pos)
            return lambda: self.set_loc(loc, self.sum_value(v0, ivar, n, t))
        if kind in ("min", "max"):
            if used_elsewhere:
                raise Unsupported("running minimum used inside the loop")
            return lambda: self.set_loc(loc, self.red_value(v0, ("red", kind, t), ivar, n))
        raise Unsupported("loop-carried variable %s without recognised invariant" % (loc[1],))

    def text_summary(self, info, loc, n, start_uid, v0):
        """text accumulated by concatenation: v0 ++ flatmap(i<n, piece(i))"""
        hv = info.hvsyms[(loc, "text")]
        name = hv.decl().name()

        def piece(p):
            v = p["writes"].get(loc)
            if v is None:
                return []
            if not isinstance(v, SText) or not v.nodes or not isinstance(v.nodes[0], It) or v.nodes[0].v.kind != "str" or not v.nodes[0].v.a.eq(hv):
                raise Unsupported("text %s rebuilt in a symbolic loop" % (loc[1],))
            rest = v.nodes[1:]
            if name in _nodes_sexpr(rest):
                raise Unsupported("text %s used in its own extension" % (loc[1],))
            return rest
        nodes = self.merged(info, piece, merge_nodes, lambda: [])
        if self.hv_used(info, loc, [hv]):
            raise Unsupported("accumulated text used inside the loop")
        k = V.fresh_index()
        loop = [Loop(k, n, self.relink(nodes, info, k, start_uid), start_uid)]
        base = v0.nodes if isinstance(v0, SText) else ([It(Atom("lit", v0))] if len(v0) else [])
        isb = isinstance(v0, bytes) or isinstance(v0, SText) and v0.isbytes
        return lambda: self.set_loc(loc, SText(base + loop, isb))

    def exists_term(self, c, ivar, n):
        if not any(v.get_id() == ivar.get_id() for v in V.index_vars(c)):
            return z3.And(c, n > 0)
        k = V.fresh_index()
        b = V.reduce_term("exists", k, n, z3.If(z3.substitute(c, (ivar, k)), z3.IntVal(1), z3.IntVal(0)))
        return b == 1

    def red_value(self, v0, h, ivar, n):
        kind, t = h[1], lift(h[2])
        k = V.fresh_index()
        red = V.reduce_term(kind, k, n, z3.substitute(t, (ivar, k)))
        a = lift(v0)
        if a.sort() != red.sort():
            a, red = to_real(a), to_real(red)
        comb = z3.If(a <= red, a, red) if kind == "min" else z3.If(a >= red, a, red)
        return SNum(z3.If(n > 0, comb, a))

    def loop_const(self, v, ivar):
        try:
            s = _sexpr(v)
        except Exception:
            return False
        return ivar.decl().name() not in s

    def merge_any(self, c, a, b):
        if same(a, b):
            return a
        return merge_values(c, a, b)

    def hv_value_at(self, info, loc, v0):
        args = None
        if isinstance(v0, numpy.ndarray):
            out = numpy.empty(v0.shape, dtype=object)
            for ix in numpy.ndindex(v0.shape):
                out[ix] = wrap(info.hvsyms[(loc, str(ix))])
            return out
        if isinstance(v0, tuple):
            return tuple(wrap(info.hvsyms[(loc, str(k))]) for k in range(len(v0)))
        if (loc, "") not in info.hvsyms:
            raise Unsupported("loop-carried value %s of unsupported shape" % (loc[1],))
        return wrap(info.hvsyms[(loc, "")])

    def classify(self, v, hv, hv_terms):
        def has(t):
            ids = {h.get_id() for h in hv_terms}
            return any(a.get_id() in ids for a in core.collect_apps([t]))

        def one(a, h):
            at, ht = lift(a) if not isinstance(a, SBool) else a.t, h.t
            at = z3.simplify(at)
            if at.eq(ht):
                return ("same", 0)
            if not has(at):
                return ("last", a)
            if at.sort() == B:
                return (None, None)
            x, y = at, ht
            if x.sort() != y.sort():
                x, y = to_real(x), to_real(y)
            d = z3.simplify(x - y, som=True)
            if not has(d):
                return ("sum", SNum(d))
            # push through ite: If(c, hv + a, hv + b)
            d2 = z3.simplify(push_ite(at, lambda u: z3.simplify((to_real(u) if u.sort() != y.sort() else u) - y, som=True)))
            if not has(d2):
                return ("sum", SNum(d2))
            for kind in ("min", "max"):
                # If(t < hv, t, hv)
                if z3.is_app_of(at, z3.Z3_OP_ITE):
                    c, p, q = at.children()
                    for cand, other in ((p, q), (q, p)):
                        if other.eq(ht) and not has(cand):
                            m = z3.If(cand <= ht, cand, ht) if kind == "min" else z3.If(cand >= ht, cand, ht)
                            if self.valid(at == m):
                                return (kind, SNum(cand))
            return (None, None)
        if isinstance(v, (numpy.ndarray, tuple)):
            rs = [one(a, b) for a, b in zip(numpy.array(v, dtype=object).flat, numpy.array(hv, dtype=object).flat)]
            kinds = {k for k, _ in rs}
            if kinds == {"same"}:
                return ("same", None)
            if kinds == {"last"} or kinds == {"last", "same"} and False:
                return ("last", v)
            if kinds <= {"sum", "same"} and isinstance(v, numpy.ndarray):
                out = numpy.empty(v.shape, dtype=object)
                for ix, (k, t) in zip(numpy.ndindex(v.shape), rs):
                    out[ix] = t
                return ("sum", out)
            return (None, None)
        if not (isnum(v) or isinstance(v, SBool)):
            return ("last", v)
        return one(v, hv)

    def hv_used(self, info, loc, hv_terms):
        names = [t.decl().name() for t in hv_terms]
        for p in info.paths:
            blob = " ".join(c.sexpr() for c in p["conds"])
            blob += " ".join(_nodes_sexpr(d) for d in p["deltas"].values())
            blob += " ".join(_sexpr(v) for v in p["points"].values())
            blob += " ".join(_sexpr(v) for v in p["elems"].values())
            blob += " ".join(_sexpr(v) for l, v in p["writes"].items() if l != loc)
            if any(nm in blob for nm in names):
                return True
        return False

    # -------- leaving the loop in iteration i
    def exit_iteration(self, info, key, n, run):
        i = info.ivar
        self.assume(z3.And(i >= 0, i < n))
        # state at the head of iteration i: summary of the i iterations before
        save_i = z3.Int("ix!X%d_%d" % (self.counter, len(self.trail)))
        start_uid = self.uid_counter
        self.summary(info, key, i)
        ctx = None
        sig = run(SNum(i))
        if sig == "break":
            return "break"
        raise PathEnd()


V_UNSET = type("Unset", (), {"__repr__": lambda s: "<unset>"})()


def merge_nodes(c, a, b):
    if nodes_same(a, b):
        return a
    # common prefix stays outside the If
    pre = []
    a, b = list(a), list(b)
    while a and b and nodes_same(a[:1], b[:1]):
        pre.append(a.pop(0))
        b.pop(0)
    return pre + [If(c, a, b)]


def push_ite(t, f):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return z3.If(c, push_ite(a, f), push_ite(b, f))
    return f(t)


def merge_objects(c, a, b):
    if same(a, b):
        return a
    if type(a) is not type(b):
        raise Unsupported("merge of objects of different type")
    from .interp import instance_attrs
    at = instance_attrs(a)
    if at != instance_attrs(b):
        raise Unsupported("merge of objects with different attributes")
    r = object.__new__(type(a))
    E().adopt(r)
    for n in at:
        x, y = getattr(a, n), getattr(b, n)
        if same(x, y):
            v = x
        elif isinstance(x, VList) and isinstance(y, VList):
            v = VList(nodes=[If(c, x._nodes, y._nodes)])
        else:
            v = merge_values(c, x, y)
        object.__setattr__(r, n, v)
    return r
