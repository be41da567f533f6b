"""While loops with an arithmetic counter: `while guard(v): ...; v = next(v)`.

The loop is read as a for loop over k = 0 .. K-1 with v = v0 + C*k, where C is found by probing the
body once and K is the first k at which guard(v0 + C*k) fails.  Checked for every path of the body:
if guard(v0 + C*(k+1)) holds the body leaves v = v0 + C*(k+1), otherwise it leaves v with a false
guard.  Termination is assumed (partial correctness).
"""
import ast
import z3
from . import core
from .core import E, Unsupported, PathEnd, Restart
from . import values as V
from .values import *


class _Probe(object):
    is_probe = True

    def __init__(self):
        self.step = None
        self.var = None
        self.failed = False


def counters(s, env):
    used = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)]
    assigned = set()
    for st in s.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
    return [v for v in dict.fromkeys(used) if v in assigned]


def as_int(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SNum) and x.t.sort() == core.I:
        return x.t
    return None


def try_chunks(interp, s, env):
    e = E()
    cs = [v for v in counters(s, env) if v in env.vars and as_int(env.vars[v]) is not None]
    if len(cs) != 1:
        return None
    v = cs[0]
    # every other variable of the guard must be loop constant: only counters are assigned in the body
    if [x for x in counters(s, env) if x != v]:
        return None
    key = ("while", id(s), interp.depth, e.prefix_key())
    st = e.table.get(key)
    if st is None:
        st = e.table[key] = _Probe()
    if st.failed:
        return None

    def guard(t):
        save = env.vars[v]
        env.vars[v] = SNum(t)
        try:
            return V.zbool(interp.ev(s.test, env))
        finally:
            env.vars[v] = save
    v0 = as_int(env.vars[v])
    if st.step is None and not e.feasible(guard(v0)):
        st.failed = True
        return (interp.block(s.orelse, env),)
    if st.step is None:
        probe(interp, s, env, v, st, guard, v0)
    C = z3.IntVal(st.step)
    K = e.fresh("chunks", core.I)
    e.assume(K >= 0)
    e.assume(z3.Not(guard(v0 + C * K)))
    if not e.feasible(z3.BoolVal(True)):
        raise Unsupported("while loop that does not terminate")

    def run(iv):
        k = iv.t
        cur = v0 + C * k
        interp.store(env, v, SNum(z3.simplify(cur)))
        e.assume(guard(cur))
        nxt = v0 + C * (k + 1)
        e.assume(z3.Implies(k + 1 < K, guard(nxt)))
        # guards up to K hold by definition of K
        e.assume(z3.Implies(K > 0, guard(v0 + C * (K - 1))))
        sig = interp.block(s.body, env)
        if sig == "continue":
            sig = None
        if sig is None:
            t = as_int(env.vars.get(v))
            if t is None or not e.valid(z3.Implies(k + 1 < K, t == nxt)) or not e.valid(z3.Implies(k + 1 == K, z3.Not(guard(t)))):
                raise Unsupported("while loop without arithmetic counter")
        return sig
    e.assume(z3.Implies(K > 0, guard(v0 + C * (K - 1))))
    r = e.generic_loop(("while", id(s), interp.depth), K, run)
    if r == "break":
        return (None,)
    if r is not None:
        return (r,)
    return (interp.block(s.orelse, env),)


def probe(interp, s, env, v, st, guard, v0):
    """find the step of the counter; ends with Restart"""
    e = E()
    cur = z3.Int("probe!%s" % v)
    st.failed = True
    try:
        env.vars[v] = SNum(cur)
        g = V.zbool(interp.ev(s.test, env))
        e.assume(g)
        npos = e.pos
        sig = interp.block(s.body, env)
        t = as_int(env.vars.get(v))
        if sig is None and t is not None:
            g2 = guard(t)
            d = z3.Int("probe!d")
            sol = z3.Solver()
            sol.set("timeout", 3000)
            fs = list(e.facts) + [g2, d == t - cur]
            for f in fs:
                sol.add(f)
            for a in core.all_axioms(fs):
                sol.add(a)
            if sol.check() == z3.sat:
                c = sol.model().eval(d)
                if z3.is_int_value(c) and c.as_long() != 0 and e.valid(t - cur == c, extra=(g2,)):
                    st.step, st.var, st.failed = c.as_long(), v, False
    except Unsupported:
        pass
    except (IndexError, KeyError, ValueError, TypeError, AttributeError):
        # an arbitrary value of the counter, not one it takes: other paths of this probe follow
        st.failed = False
        raise PathEnd()
    except PathEnd:
        # a path of an inner loop ended: other paths of this probe follow (explore checks that one did)
        st.failed = False
        raise
    except Restart:
        # an inner loop of the body needs its invariant refined: probe again with what it learned
        st.tries = getattr(st, "tries", 0) + 1
        if st.tries < 12:
            st.failed = False
        raise
    # forget the probe
    e.trail = e.trail[:0] if False else e.trail
    raise Restart()


def while_eq(*a, **k):
    raise Unsupported("comparison of while-generated sequences")


def unroll_head(A, B):
    raise Unsupported("comparison of while-generated sequences")
