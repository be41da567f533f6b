"""Symbolic interpreter for Python source: executes the AST of the real functions (read from /repo
on every run) on symbolic values, generating verification conditions through the engine.

Interpreted: every function whose code lies in an interpretable directory (the gdspy package and the
contract files).  Calls to anything else go to models (models.py) or, with concrete arguments only,
to the real function.
"""
import ast
import builtins
import inspect
import operator
import os
import sys
import time
import types
import numpy
import z3
from . import core
from .core import E, Unsupported, PathEnd, Restart
from . import values as V
from .values import *
from . import loops

DIRS = []  # interpretable directories
_files = {}
_fn_nodes = {}
MODELS = {}  # id(native callable) -> (callable, model)
METHOD_MODELS = {}  # (type, name) -> model(self, *args)


def interpretable_code(code):
    f = code.co_filename
    return any(f.startswith(d) for d in DIRS)


def file_index(path):
    if path not in _files:
        with open(path, encoding="utf8") as f:
            tree = ast.parse(f.read(), path)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                ln = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    ln = min([ln] + [d.lineno for d in node.decorator_list])
                nm = node.name if isinstance(node, ast.FunctionDef) else "<lambda>"
                idx.setdefault((nm, ln), []).append(node)
        _files[path] = idx
    return _files[path]


def fn_node(fn):
    code = fn.__code__
    if code not in _fn_nodes:
        c = file_index(code.co_filename).get((code.co_name, code.co_firstlineno), [])
        if len(c) > 1:
            args = code.co_varnames[: code.co_argcount]
            c = [n for n in c if tuple(a.arg for a in n.args.args) == args][:1] or c
        if not c:
            raise Unsupported("no source for %s" % code.co_name)
        _fn_nodes[code] = c[0]
    return _fn_nodes[code]


_has_yield = {}


def has_yield(node):
    if node not in _has_yield:
        r = False
        stack = list(node.body) if isinstance(node, ast.FunctionDef) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _has_yield[node] = r
    return _has_yield[node]


class Env(object):
    def __init__(self, parent, globs):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.decl = None
        self.ylist = None
        self._uid = E().register(self)

    def _subst(self, s):
        # an environment captured by a closure inside a loop body
        r = Env.__new__(Env)
        s.memo[id(self)] = (r, self)
        r.parent = s(self.parent) if self.parent is not None else None
        r.globs, r.decl, r.ylist = self.globs, self.decl, None
        r._uid = E().register(r)
        r.vars = {k: s(v) for k, v in self.vars.items()}
        return r


class IFunc(object):
    """function object created by interpreted code"""

    def __init__(self, node, env, globs, defaults, kwdefaults, filename):
        self.node, self.env, self.globs = node, env, globs
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.filename = filename
        self.__name__ = node.name if isinstance(node, ast.FunctionDef) else "<lambda>"

    def __call__(self, *a, **k):
        return I_.call(self, list(a), k)

    def _subst(self, s):
        r = IFunc.__new__(IFunc)
        s.memo[id(self)] = (r, self)
        r.node, r.globs, r.filename, r.__name__ = self.node, self.globs, self.filename, self.__name__
        r.env = s(self.env) if self.env is not None else None
        r.defaults = [s(x) for x in self.defaults]
        r.kwdefaults = {k: s(x) for k, x in self.kwdefaults.items()}
        return r


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def instance_attrs(o):
    out = []
    for c in type(o).__mro__:
        sl = c.__dict__.get("__slots__", ())
        if isinstance(sl, str):
            sl = (sl,)
        for a in sl:
            if a not in ("__dict__", "__weakref__") and a not in out:
                try:
                    object.__getattribute__(o, a)
                except AttributeError:
                    continue
                out.append(a)
    d = getattr(o, "__dict__", None)
    if d:
        out.extend(k for k in d if k not in out)
    return sorted(out)


class Rest(object):
    """arguments given by a star argument of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


VTYPES = (SNum, SComplex, SBool, SText, VList, SArr, SArrT, SDict, SSet, SFile)


def is_sym(x, depth=0):
    if isinstance(x, VTYPES) or isinstance(x, (IFunc, Group)):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object and any(is_sym(y) for y in x.flat)
    if depth < 6:
        if isinstance(x, (tuple, list, set, frozenset)):
            return any(is_sym(y, depth + 1) for y in x)
        if isinstance(x, dict):
            return any(is_sym(k, depth + 1) or is_sym(v, depth + 1) for k, v in x.items())
    return False


def concretize(x, depth=0):
    """native value of a (possibly V-typed) value without symbolic content; Unsupported otherwise"""
    if isinstance(x, VList):
        c = x.concrete()
        if c is None:
            raise Unsupported("symbolic list passed to a native function")
        return [concretize(y, depth + 1) for y in c]
    if isinstance(x, SDict):
        return {concretize(k): concretize(v) for k, v in x._conc()}
    if isinstance(x, SSet):
        c = x.concrete()
        if c is None:
            raise Unsupported("symbolic set passed to a native function")
        return set(concretize(y) for y in c)
    if isinstance(x, (SNum, SBool)):
        s = z3.simplify(x.t)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if z3.is_rational_value(s):
            f = s.as_fraction()
            return float(f)
        raise Unsupported("symbolic number passed to a native function")
    if isinstance(x, SText):
        ns = x.nodes
        if all(isinstance(n, It) and n.v.kind == "lit" for n in ns):
            return (b"" if x.isbytes else "").join(n.v.a for n in ns)
        raise Unsupported("symbolic text passed to a native function")
    if isinstance(x, tuple):
        return tuple(concretize(y, depth + 1) for y in x)
    if isinstance(x, list):
        return [concretize(y, depth + 1) for y in x]
    if isinstance(x, numpy.ndarray) and x.dtype == object:
        y = numpy.empty(x.shape, dtype=object)
        for ix in numpy.ndindex(x.shape):
            y[ix] = concretize(x[ix])
        try:
            return numpy.array(y.tolist())
        except Exception:
            return y
    if isinstance(x, (SArr, SArrT)):
        if isinstance(x, SArr) and isinstance(x.n, int):
            return concretize(numpy.array([x.f(z3.IntVal(k)) for k in range(x.n)], dtype=object))
        raise Unsupported("symbolic array passed to a native function")
    return x


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
    ast.BitXor: operator.xor, ast.BitAnd: operator.and_, ast.MatMult: operator.matmul,
}
IOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
    ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.BitOr: operator.ior,
    ast.BitXor: operator.ixor, ast.BitAnd: operator.iand,
}


def truth(v):
    if v is True or v is False:
        return v
    if isinstance(v, SBool):
        return E().decide(v.t)
    if isinstance(v, SNum):
        return E().decide(v.t != 0)
    if isinstance(v, (SArr, SArrT)):
        raise ValueError("truth value of an array is ambiguous")
    if interp_method(v, "__bool__"):
        return truth(I_.call(getattr(v, "__bool__"), [], {}))
    if interp_method(v, "__len__"):
        n = I_.call(getattr(v, "__len__"), [], {})
        return truth(n > 0 if not isinstance(n, int) else n > 0)
    return bool(v)


def settle(v):
    """choose between the objects that a symbolic loop may have left behind"""
    while type(v) is V.OneOf:
        v = v.a if E().decide(v.c) else v.b
    return v


def interp_method(o, name):
    f = getattr(type(o), name, None)
    return isinstance(f, types.FunctionType) and interpretable_code(f.__code__)


def unindex(k):
    """fold constant symbolic integers in subscripts"""
    if isinstance(k, SNum):
        s = z3.simplify(k.t)
        if z3.is_int_value(s):
            return s.as_long()
        return k
    if isinstance(k, SBool):
        return k
    if isinstance(k, slice):
        return slice(unindex(k.start), unindex(k.stop), unindex(k.step))
    if isinstance(k, tuple):
        return tuple(unindex(x) for x in k)
    return k


def issymint(k):
    return isinstance(k, SNum)


class Interp(object):
    def __init__(self):
        self.depth = 0
        self.steps = 0
        self.where = []
        self.natives = {}

    # ------------------------------------------------------------ functions
    def call(self, f, args, kwargs):
        e = E()
        if isinstance(f, IFunc):
            return self.call_node(f.node, f.env, f.globs, f.defaults, f.kwdefaults, args, kwargs, f.filename)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, types.FunctionType) and interpretable_code(fn.__code__):
                return self.call(fn, [f.__self__] + list(args), kwargs)
            if isinstance(fn, IFunc):
                return self.call(fn, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.FunctionType):
            m = e.summaries.get(f)
            if m is not None:
                return m(*args, **kwargs)
            mm = MODELS.get(id(f))
            if mm is not None:
                return mm[1](*args, **kwargs)
            if interpretable_code(f.__code__):
                if getattr(f, "_native_", False):
                    return f(*args, **kwargs)
                node = fn_node(f)
                env = None
                if f.__closure__:
                    env = Env(None, f.__globals__)
                    for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                        try:
                            env.vars[nm] = cell.cell_contents
                        except ValueError:
                            pass
                name = "%s.%s" % (os.path.basename(f.__code__.co_filename)[:-3], f.__qualname__)
                e.interpreted[name] = e.interpreted.get(name, 0) + 1
                return self.call_node(node, env, f.__globals__, list(f.__defaults__ or ()), f.__kwdefaults__ or {}, args, kwargs, f.__code__.co_filename)
        try:
            mm = MODELS.get(id(f))
        except TypeError:
            mm = None
        if mm is not None and mm[0] is f:
            return mm[1](*args, **kwargs)
        if isinstance(f, type):
            return self.instantiate_class(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodWrapperType):
            s = getattr(f, "__self__", None)
            nm = getattr(f, "__name__", None)
            mm = METHOD_MODELS.get((type(s), nm))
            if mm is not None:
                return mm(s, *args, **kwargs)
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        if args and isinstance(args[-1], Rest):
            raise Unsupported("star argument of symbolic length")
        s = getattr(f, "__self__", None)
        if isinstance(s, VTYPES + (Group,)) or isinstance(f, types.MethodType) and isinstance(s, VTYPES):
            return f(*args, **kwargs)
        if getattr(f, "_engine_", False) or getattr(getattr(f, "__func__", None), "_engine_", False):
            return f(*args, **kwargs)
        if s is not None and getattr(type(s), "_engine_class_", False):
            return f(*args, **kwargs)
        if not isinstance(f, type) and not isinstance(f, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, numpy.ufunc, types.MethodWrapperType, types.MethodDescriptorType)):
            if isinstance(inspect.getattr_static(type(f), "__call__", None), IFunc):
                return self.call(inspect.getattr_static(type(f), "__call__"), [f] + list(args), kwargs)
            if interp_method(f, "__call__"):
                return self.call(type(f).__call__, [f] + list(args), kwargs)
        if isinstance(s, list) and any(is_sym(a) for a in args):
            pass
        if isinstance(s, numpy.ndarray) and is_sym(s):
            from . import models
            r = models.ndarray_method(s, f.__name__, args, kwargs)
            return r
        if is_sym(args) or is_sym(kwargs) or (s is not None and not isinstance(s, types.ModuleType) and is_sym(s)):
            args = [concretize(a) for a in args]
            kwargs = {k: concretize(v) for k, v in kwargs.items()}
        nm = getattr(f, "__qualname__", str(f))
        self.natives[nm] = self.natives.get(nm, 0) + 1
        if isinstance(s, (list, dict, set)) and E().loops:
            raise Unsupported("native container mutated in a symbolic loop")
        r = f(*args, **kwargs)
        return self.incoming(r)

    def incoming(self, r):
        if isinstance(r, list):
            return VList([self.incoming(x) for x in r])
        if isinstance(r, dict) and type(r) is dict:
            return SDict([(k, self.incoming(v)) for k, v in r.items()])
        if isinstance(r, numpy.ndarray) and E().loops:
            E().adopt(r)
        return r

    def instantiate_class(self, cls, args, kwargs):
        mod = sys.modules.get(cls.__module__)
        f = getattr(mod, "__file__", None) or ""
        if any(f.startswith(d) for d in DIRS) and not issubclass(cls, BaseException) and not getattr(cls, "_engine_class_", False):
            new = getattr(cls, "__new__")
            obj = object.__new__(cls)
            E().adopt(obj)
            init = getattr(cls, "__init__")
            if init is not object.__init__:
                self.call(init, [obj] + list(args), kwargs)
            return obj
        if issubclass(cls, BaseException):
            # the text of a message is not looked at
            def plain(x):
                try:
                    return concretize(x)
                except Unsupported:
                    return "<symbolic>"
            return cls(*[plain(x) if is_sym(x) else x for x in args])
        return self.native(cls, args, kwargs)

    def bind(self, node, defaults, kwdefaults, args, kwargs):
        a = node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        vals = {}
        kwargs = dict(kwargs)
        rest = None
        if args and isinstance(args[-1], Rest):
            rest = args[-1].seq
            args = list(args[:-1])
            if len(args) < len(names) or a.vararg is None:
                raise Unsupported("star argument of symbolic length")
        if len(args) > len(names):
            if a.vararg is None:
                raise TypeError("%s() takes %d positional arguments but %d were given" % (getattr(node, "name", "<lambda>"), len(names), len(args)))
        for nm, v in zip(names, args):
            vals[nm] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
            if rest is not None:
                vals[a.vararg.arg] = VList(nodes=[It(x) for x in args[len(names):]] + list(V.nodes_of(rest)))
        for nm in names:
            if nm in kwargs:
                if nm in vals:
                    raise TypeError("multiple values for argument '%s'" % nm)
                vals[nm] = kwargs.pop(nm)
        off = len(names) - len(defaults)
        for k, nm in enumerate(names):
            if nm not in vals:
                if k >= off:
                    vals[nm] = defaults[k - off]
                else:
                    raise TypeError("%s() missing required argument: '%s'" % (getattr(node, "name", "<lambda>"), nm))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError("missing keyword-only argument")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = SDict(kwargs.items())
        elif kwargs:
            raise TypeError("%s() got an unexpected keyword argument '%s'" % (getattr(node, "name", "<lambda>"), list(kwargs)[0]))
        return vals

    def call_node(self, node, env, globs, defaults, kwdefaults, args, kwargs, filename):
        vals = self.bind(node, defaults, kwdefaults, args, kwargs)
        fe = Env(env, globs)
        fe.vars.update(vals)
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("call depth")
        self.where.append((filename, node))
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fe)
            fe.first = args[0] if args else None
            fe.filename = filename
            if has_yield(node):
                fe.ylist = VList()
                sig = self.block(node.body, fe)
                return fe.ylist
            sig = self.block(node.body, fe)
            if isinstance(sig, tuple):
                return sig[1]
            return None
        finally:
            self.depth -= 1
            self.where.pop()

    # ------------------------------------------------------------ variables
    def load(self, env, name):
        en = env
        while en is not None:
            if name in en.vars:
                if E().loops and en._uid <= E().loops[-1].start_uid:
                    E().loc_read(en._uid, name)
                v = en.vars[name]
                if type(v) is V.Poison:
                    raise Unsupported(v.why)
                return v
            en = en.parent
        if E().loops and env.decl is None:
            pass
        g = env.globs
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError("name '%s' is not defined" % name)

    def store(self, env, name, value):
        if env.decl and name in env.decl:
            kind = env.decl[name]
            if kind == "global":
                if E().loops:
                    raise Unsupported("global assignment in symbolic loop")
                env.globs[name] = value
                return
            en = env.parent
            while en is not None and name not in en.vars:
                en = en.parent
            env = en
        if E().loops:
            E().loc_write(env._uid, name, value)
        env.vars[name] = value

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, SuperProxy):
            mro = type(o.obj).__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, types.FunctionType):
                        return types.MethodType(a, o.obj)
                    if isinstance(a, property):
                        return self.call(a.fget, [o.obj], {})
                    return getattr(super(o.cls, o.obj), name)
            return getattr(super(o.cls, o.obj), name)
        if isinstance(o, (types.ModuleType, type)):
            if o is numpy and name == "pi":
                return SNum(core.PI)
            return getattr(o, name)
        if isinstance(o, VTYPES):
            from . import models
            m = models.vtype_attr(o, name)
            if m is not None:
                return m[0]
            return getattr(o, name)
        if isinstance(o, numpy.ndarray):
            from . import models
            m = models.ndarray_attr(o, name)
            if m is not None:
                return m[0]
            return getattr(o, name)
        e = E()
        cls = type(o)
        st = inspect.getattr_static(cls, name, None)
        if isinstance(st, property):
            fg = st.fget
            if isinstance(fg, types.FunctionType) and interpretable_code(fg.__code__):
                return self.call(fg, [o], {})
            return getattr(o, name)
        if e.loops and e.uid_any(o) is not None:
            e.loc_read(e.uid_any(o), name)
        if isinstance(st, IFunc) and name not in getattr(o, "__dict__", ()):
            return types.MethodType(st, o)
        return getattr(o, name)

    def setattr(self, o, name, value):
        if isinstance(o, VTYPES + (numpy.ndarray,)):
            if isinstance(o, numpy.ndarray) and name == "shape":
                self.check_array_write(o)
            setattr(o, name, value)
            return
        if isinstance(o, SuperProxy):
            raise Unsupported("assignment through super()")
        e = E()
        if not isinstance(o, (types.ModuleType, type)):
            st = inspect.getattr_static(type(o), name, None)
            if isinstance(st, property):
                if st.fset is None:
                    raise AttributeError("can't set attribute")
                self.call(st.fset, [o, value], {})
                return
            if e.loops:
                e.loc_write(e.uid_any(o), name, value)
        elif e.loops:
            raise Unsupported("module attribute set in symbolic loop")
        setattr(o, name, value)

    def check_array_write(self, o):
        if E().loops:
            u = E().uid_any(o)
            if u is None or u <= E().loops[-1].start_uid:
                raise Unsupported("in-place change of an outer array in a symbolic loop")

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            sig = self.stmt(s, env)
            if sig is not None:
                return sig
        return None

    def stmt(self, s, env):
        self.steps += 1
        if self.steps % 64 == 0:
            e = E()
            if e.deadline and time.time() > e.deadline:
                raise Unsupported("time budget for symbolic execution used up")
            if self.steps > 3000000:
                raise Unsupported("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        try:
            return m(s, env)
        except Unsupported as ex:
            if not getattr(ex, "located", False):
                ex.located = True
                fn = self.where[-1][0] if self.where else "?"
                ex.args = ("%s (%s:%d)" % (ex.args[0] if ex.args else "", os.path.basename(fn), s.lineno),)
            raise

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Break(self, s, env):
        return "break"

    def s_Continue(self, s, env):
        return "continue"

    def s_Return(self, s, env):
        return ("return", self.ev(s.value, env) if s.value is not None else None)

    def s_Global(self, s, env):
        env.decl = env.decl or {}
        for n in s.names:
            env.decl[n] = "global"

    def s_Nonlocal(self, s, env):
        env.decl = env.decl or {}
        for n in s.names:
            env.decl[n] = "nonlocal"

    def s_Import(self, s, env):
        for a in s.names:
            mod = __import__(a.name)
            self.store(env, a.asname or a.name.split(".")[0], sys.modules[a.name] if a.asname else mod)

    def s_ImportFrom(self, s, env):
        pkg = env.globs.get("__package__")
        mod = __import__(s.module or "", env.globs, None, [a.name for a in s.names], s.level)
        for a in s.names:
            self.store(env, a.asname or a.name, getattr(mod, a.name))

    def s_Assert(self, s, env):
        if not truth(self.ev(s.test, env)):
            raise AssertionError(self.ev(s.msg, env) if s.msg is not None else None)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise getattr(env, "handling", None) or RuntimeError("no active exception")
        x = self.ev(s.exc, env)
        if isinstance(x, type):
            x = x()
        raise x

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < k + after:
                    raise ValueError("not enough values to unpack")
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, VList(items[k: len(items) - after]), env)
                for x, y in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(x, y, env)
                return
            if len(items) != len(t.elts):
                raise ValueError("wrong number of values to unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, VList):
            ns = v.nodes
            if len(ns) and all(isinstance(n, It) for n in ns):
                return [n.v for n in ns]
            c = v.concrete()
            if c is None:
                raise Unsupported("unpacking a symbolic list")
            return c
        if isinstance(v, SArrT):
            return [v[k] for k in range(v.a.ncols)]
        if isinstance(v, SArr):
            if isinstance(v.n, int):
                return [v.f(z3.IntVal(k)) for k in range(v.n)]
            raise Unsupported("unpacking a symbolic array")
        from . import models
        ns = models.iter_nodes(v)
        if all(isinstance(n, It) for n in ns):
            return [n.v for n in ns]
        raise Unsupported("unpacking %s" % type(v).__name__)

    def s_AugAssign(self, s, env):
        t = s.target
        op = IOPS[type(s.op)]

        def do(old, v):
            if isinstance(old, numpy.ndarray):
                self.check_array_write(old)
                if old.dtype != object and is_sym(v):
                    raise Unsupported("in-place symbolic update of a native array")
                if isinstance(v, SArr):
                    raise Unsupported("in-place update with symbolic array")
            if isinstance(old, (numpy.ndarray, VList, SArr, SDict, SSet, Group)):
                if isinstance(old, VList) and op is operator.iadd:
                    old.extend(v)
                    return old
                return op(old, v)
            return self.binop(type(s.op), old, v)
        if isinstance(t, ast.Name):
            old = self.load(env, t.id)
            new = do(old, self.ev(s.value, env))
            if new is not old or not isinstance(new, VList):
                self.store(env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, do(self.getattr(o, t.attr), self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            old = self.getitem(o, k)
            v = self.ev(s.value, env)
            if isinstance(old, numpy.ndarray) and isinstance(o, numpy.ndarray):
                self.check_array_write(o)
                if o.dtype != object and is_sym(v):
                    raise Unsupported("in-place symbolic update of a native array")
                self.setitem(o, k, BINOPS[type(s.op)](old, v))
                return
            if isinstance(o, SArr) and isinstance(old, (SArr, numpy.ndarray)):
                self.setitem(o, k, BINOPS[type(s.op)](old, v))
                return
            if isinstance(o, VList) and isinstance(old, (SArr, numpy.ndarray)) and E().loops and isinstance(k, SNum):
                # elementwise in-place update of an array held in a list
                self.setitem(o, k, BINOPS[type(s.op)](old, v))
                return
            self.setitem(o, k, do(old, v))
        else:
            raise Unsupported("augmented target")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_slice(t.slice, env)
                if isinstance(o, (list, dict)) and E().loops:
                    raise Unsupported("del in loop")
                del o[unindex(k)]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, env), t.attr)

    def s_If(self, s, env):
        if truth(self.ev(s.test, env)):
            return self.block(s.body, env)
        return self.block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        f = self.make_fn(s, env)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f], {})
        self.store(env, s.name, f)

    def make_fn(self, node, env):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return IFunc(node, env, env.globs, defaults, kwd, self.where[-1][0] if self.where else "?")

    def s_Try(self, s, env):
        sig = None
        try:
            try:
                sig = self.block(s.body, env)
            except Exception as ex:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.ev(h.type, env)
                        match = isinstance(ex, ty)
                    if match:
                        if h.name:
                            self.store(env, h.name, ex)
                        old = getattr(env, "handling", None)
                        env.handling = ex
                        try:
                            sig = self.block(h.body, env)
                        finally:
                            env.handling = old
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = self.block(s.orelse, env)
        finally:
            if s.finalbody and sys.exc_info()[0] not in (Unsupported, PathEnd, Restart):
                fs = self.block(s.finalbody, env)
                if fs is not None:
                    sig = fs
        return sig

    def s_With(self, s, env):
        if len(s.items) != 1:
            raise Unsupported("with of several items")
        it = s.items[0]
        o = self.ev(it.context_expr, env)
        if isinstance(o, SFile) or getattr(type(o), "_engine_class_", False):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, o.__enter__() if hasattr(o, "__enter__") else o, env)
            try:
                return self.block(s.body, env)
            finally:
                if sys.exc_info()[0] not in (Unsupported, PathEnd, Restart):
                    o.close()
        if interp_method(o, "__enter__"):
            v = self.call(type(o).__enter__, [o], {})
        else:
            v = type(o).__enter__(o)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            sig = self.block(s.body, env)
        except Exception as ex:
            r = self.call(getattr(o, "__exit__"), [type(ex), ex, None], {})
            if not truth(r):
                raise
            return None
        self.call(getattr(o, "__exit__"), [None, None, None], {})
        return sig

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        from . import models
        it = self.ev(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            return self.block(s.body, env)
        sig = self.iterate((s.lineno, s.col_offset, id(s)), it, body)
        if sig == "break":
            return None
        if sig is not None:
            return sig
        return self.block(s.orelse, env)

    def iterate(self, tag, it, body):
        """run body(v) for each element; returns None | 'break' | ('return', v)"""
        from . import models
        live = it if isinstance(it, VList) else None
        if live is not None:
            ns = live._nodes
            if all(isinstance(n, It) for n in ns):
                # a list that may grow while it is iterated
                k = 0
                while k < len(live._nodes):
                    if not isinstance(live._nodes[k], It):
                        raise Unsupported("list extended symbolically while iterated")
                    live._read()
                    sig = body(live._nodes[k].v)
                    k += 1
                    if sig == "continue":
                        sig = None
                    if sig is not None:
                        return sig
                return None
        if isinstance(it, (types.GeneratorType,)) or hasattr(it, "__next__") and not isinstance(it, VTYPES) and not getattr(type(it), "_engine_class_", False):
            for v in it:
                sig = body(v)
                if sig == "continue":
                    sig = None
                if sig is not None:
                    return sig
            return None
        ns = models.iter_nodes(it)
        owner = it if isinstance(it, VList) else None
        return self.run_nodes(tag, ns, body, owner)

    def run_nodes(self, tag, ns, body, owner=None):
        for k, n in enumerate(ns):
            sig = None
            if isinstance(n, It):
                sig = body(n.v)
            elif isinstance(n, If):
                sig = self.run_nodes((tag, k), n.a if E().decide(n.c) else n.b, body)
            elif isinstance(n, Loop):
                sig = self.sym_loop((tag, k), n, body, owner)
            else:
                raise Unsupported("iteration over a while-generated sequence")
            if sig == "continue":
                sig = None
            if sig is not None:
                return sig
        return None

    def sym_loop(self, tag, node, body, owner):
        e = E()

        def run(iv):
            b = node.body
            if len(b) == 1 and isinstance(b[0], It):
                v = V.elem(owner, node, iv.t)
                sig = body(v)
            else:
                sig = self.run_nodes((tag, "b"), node.subst([(node.ivar, iv.t)]).nodes(b), body)
            if sig == "continue":
                sig = None
            return sig
        return e.generic_loop((tag, self.depth), node.n, run)

    def s_While(self, s, env):
        e = E()
        count = 0
        symcount = 0
        from . import streams
        while True:
            r = streams.try_stream(self, s, env)
            if r is not None:
                if r[0] == "go":
                    continue
                return None if r[0] == "break" else r[0]
            if count == 0:
                from . import refine
                r = refine.try_refine(self, s, env)
                if r is not None:
                    return r[0]
            c = self.ev(s.test, env)
            symbolic = isinstance(c, (SBool, SNum)) and not z3.is_true(z3.simplify(V.zbool(c))) and not z3.is_false(z3.simplify(V.zbool(c)))
            npos = len(e.decisions)
            if symbolic and symcount == 0:
                from . import whiles
                r = whiles.try_chunks(self, s, env)
                if r is not None:
                    return r[0]
            if not truth(c):
                break
            if len(e.decisions) > npos or symbolic:
                symcount += 1
                if symcount > e.unroll:
                    raise Unsupported("while loop without invariant")
            count += 1
            if count > 5000:
                raise Unsupported("while loop runs too long")
            sig = self.block(s.body, env)
            if sig == "break":
                return None
            if sig == "continue":
                sig = None
            if sig is not None:
                return sig
        return self.block(s.orelse, env)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        return getattr(self, "e_" + type(n).__name__, self.e_unsup)(n, env)

    def e_unsup(self, n, env):
        raise Unsupported("expression %s" % type(n).__name__)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return settle(self.load(env, n.id))

    def e_Attribute(self, n, env):
        return settle(self.getattr(self.ev(n.value, env), n.attr))

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    out.extend(V.nodes_of(self.ev(x.value, env)))
                else:
                    out.append(It(self.ev(x, env)))
            return VList(nodes=out)
        return VList([self.ev(x, env) for x in n.elts])

    def e_Set(self, n, env):
        return SSet([It(x) for x in self.elts(n.elts, env)])

    def e_Dict(self, n, env):
        d = SDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_Lambda(self, n, env):
        return self.make_fn(n, env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if truth(self.ev(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.store(env, n.target.id, v)
        return v

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        for k, x in enumerate(n.values):
            v = self.ev(x, env)
            if k == len(n.values) - 1:
                return v
            t = truth(v)
            if isand and not t or not isand and t:
                # a symbolic Boolean that was decided keeps its decided value
                if isinstance(v, SBool):
                    return t
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, n, env):
        return self.binop(type(n.op), self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        f = BINOPS[op]
        if op is ast.Mult:
            if isinstance(a, (list, str, bytes, tuple)) and isinstance(b, SNum):
                a = VList(a) if isinstance(a, list) else a
            if isinstance(b, list) and isinstance(a, SNum):
                b = VList(b)
        if op is ast.Mod and isinstance(a, (str, bytes)):
            if is_sym(b):
                from . import models
                return models.percent_format(a, b)
        if isinstance(a, types.BuiltinFunctionType):
            pass
        for x, y, nm, rn in ((a, b, op, 0),):
            m = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(op)
            if m and interp_method(a, m):
                return self.call(getattr(type(a), m), [a, b], {})
            if m and interp_method(b, "__r" + m[2:]) and not hasattr(type(a), m):
                return self.call(getattr(type(b), "__r" + m[2:]), [b, a], {})
        if isinstance(a, list) and isinstance(b, VList):
            return VList(nodes=[It(x) for x in a] + b.nodes)
        if isinstance(a, numpy.ndarray) and isinstance(b, VList):
            b = concretish(b)
        if isinstance(b, numpy.ndarray) and isinstance(a, VList):
            a = concretish(a)
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(a, int) and isinstance(b, float):
            r = f(a, b)
            return r
        r = f(a, b)
        if isinstance(r, numpy.ndarray) and E().loops:
            E().adopt(r)
        return r

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, env)
            r = self.compare(op, left, right)
            if k == len(n.ops) - 1:
                if res is True:
                    return r
                return SBool(z3.And(V.zbool(res), V.zbool(r)))
            if isinstance(r, (SBool,)):
                if not truth(r):
                    return False
            elif not truth(r):
                return r
            left = right
        return res

    def compare(self, op, a, b):
        from . import models
        if isinstance(op, ast.Is):
            return models.is_same(a, b)
        if isinstance(op, ast.IsNot):
            return not models.is_same(a, b)
        if isinstance(op, ast.In):
            return models.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = models.contains(b, a)
            return SBool(z3.Not(r.t)) if isinstance(r, SBool) else not r
        if isinstance(op, ast.Eq):
            return models.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = models.eq(a, b, ne=True)
            return r
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple) and (is_sym(a) or is_sym(b)):
            return models.tuple_less(a, b, type(op))
        return f(a, b)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            en = env
            while en is not None and not hasattr(en, "first"):
                en = en.parent
            obj = en.first
            cls = None
            for c in type(obj).__mro__:
                for v in c.__dict__.values():
                    f = v.fget if isinstance(v, property) else v
                    if isinstance(f, types.FunctionType) and interpretable_code(f.__code__) and fn_node(f) is self.where[-1][1]:
                        cls = c
            if cls is None:
                raise Unsupported("super() outside a method")
            return SuperProxy(cls, obj)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, VList) and v.concrete() is None or isinstance(v, SArr) and not isinstance(v.n, int):
                    from . import models
                    r = models.star_call(f, args, v, n)
                    return r
                args.extend(self.unpack(v))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                for kk, vv in v.items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        if f is builtins.super:
            return SuperProxy(args[0], args[1])
        if f is builtins.locals:
            raise Unsupported("locals()")
        r = self.call(f, args, kwargs)
        if isinstance(r, numpy.ndarray) and E().loops:
            E().adopt(r)
        return r

    def ev_slice(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(*(self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)))
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_slice(x, env) for x in n.elts)
        if isinstance(n, ast.Index):  # pragma: no cover (old Python)
            return self.ev(n.value, env)
        return self.ev(n, env)

    e_Slice = lambda self, n, env: self.ev_slice(n, env)

    def e_Subscript(self, n, env):
        return settle(self.getitem(self.ev(n.value, env), self.ev_slice(n.slice, env)))

    def getitem(self, o, k):
        from . import models
        k = unindex(k)
        return models.getitem(o, k)

    def setitem(self, o, k, v):
        from . import models
        k = unindex(k)
        models.setitem(self, o, k, v)

    def e_JoinedStr(self, n, env):
        from . import models
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = "" if v.format_spec is None else self.e_JoinedStr(v.format_spec, env)
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(models.format_one(x, spec, conv))
        return models.text_concat(parts)

    def comp(self, n, env, add):
        ce = Env(env, env.globs)
        ce.decl = None

        def level(k):
            if k == len(n.generators):
                add(ce)
                return None
            g = n.generators[k]
            if g.is_async:
                raise Unsupported("async comprehension")
            it = self.ev(g.iter, env if k == 0 else ce)

            def body(v):
                self.assign(g.target, v, ce)
                for c in g.ifs:
                    if not truth(self.ev(c, ce)):
                        return None
                level(k + 1)
                return None
            self.iterate((n.lineno, n.col_offset, id(n), k), it, body)
        level(0)

    def e_ListComp(self, n, env):
        out = VList()
        self.comp(n, env, lambda ce: out.append(self.ev(n.elt, ce)))
        return out

    def e_GeneratorExp(self, n, env):
        return self.e_ListComp(n, env)

    def e_SetComp(self, n, env):
        out = SSet()
        self.comp(n, env, lambda ce: out.add(self.ev(n.elt, ce)))
        return out

    def e_DictComp(self, n, env):
        out = SDict()

        def add(ce):
            k = self.ev(n.key, ce)
            out[k] = self.ev(n.value, ce)
        self.comp(n, env, add)
        return out

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def _gen_env(self, env):
        while env is not None and env.ylist is None:
            env = env.parent
        if env is None:
            raise Unsupported("yield outside a generator")
        return env

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        self._gen_env(env).ylist.append(v)
        return None

    def e_YieldFrom(self, n, env):
        self._gen_env(env).ylist.extend(self.ev(n.value, env))
        return None


def concretish(v):
    """VList of concrete length -> object array"""
    from . import models
    return models.np_array(v)


I_ = Interp()


def fresh_interp():
    I_.depth = 0
    I_.steps = 0
    I_.where = []
