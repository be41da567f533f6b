"""Equality of real terms as rational functions over their uninterpreted subterms.

Both sides are brought to numerator/denominator polynomials over atoms (uninterpreted
applications and constants, with their arguments simplified); sin(x)**2 is replaced by
1 - cos(x)**2.  The difference of the numerators over the common denominator must vanish
identically; every denominator that occurs must be non-zero under the facts of the path
(asked of z3).  Sound, not complete: anything else goes to z3."""
from fractions import Fraction
import z3

LIMIT = 4000


class Big(Exception):
    pass


class Form(object):
    def __init__(self):
        self.atoms = {}
        self.dens = []
        self.memo = {}
        self.same = {}
        self.keep = []

    def atom(self, t):
        k = z3.simplify(t, som=True)
        i = k.get_id()
        if i not in self.atoms:
            i = self.congruent(k)
        return {((i, 1),): Fraction(1)}

    def congruent(self, k):
        """an atom with the same function and equal arguments, or a new one"""
        i = k.get_id()
        if i in self.same:
            return self.same[i]
        if k.num_args() == 1 and k.decl().name() in ("cos", "sin", "sqrt", "acos", "tan"):
            for j, o in list(self.atoms.items()):
                if o.decl().eq(k.decl()) and self.equal_args(o.arg(0), k.arg(0)):
                    self.same[i] = j
                    self.keep.append(k)
                    return j
        self.atoms[i] = k
        return i

    def equal_args(self, a, b):
        (n1, d1), (n2, d2) = self.rat(a), self.rat(b)
        return not self.add(self.mul(n1, d2), self.mul(n2, d1), -1)

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise Big()
        out = {}
        for m, x in a.items():
            for n, y in b.items():
                d = dict(m)
                for i, e in n:
                    d[i] = d.get(i, 0) + e
                k = tuple(sorted(d.items()))
                v = out.get(k, 0) + x * y
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        return self.reduce(out)

    def reduce(self, p):
        """sin(x)**2 -> 1 - cos(x)**2"""
        again = True
        while again:
            again = False
            for m in list(p):
                for i, e in m:
                    if e >= 2:
                        t = self.atoms[i]
                        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "sin":
                            c = self.cos_atom(t.arg(0))
                            ci = next(iter(c))[0][0]
                            x = p.pop(m)
                            d = dict(m)
                            d[i] = e - 2
                            if not d[i]:
                                del d[i]
                            for dd, sg in ((d, 1), (dict(d), -1)):
                                if sg < 0:
                                    dd[ci] = dd.get(ci, 0) + 2
                                k = tuple(sorted(dd.items()))
                                v = p.get(k, 0) + sg * x
                                if v:
                                    p[k] = v
                                else:
                                    p.pop(k, None)
                            again = True
                            break
                if again:
                    break
        return p

    def cos_atom(self, a):
        from .core import F_cos

        return self.atom(F_cos(a))

    def add(self, a, b, s=1):
        out = dict(a)
        for m, x in b.items():
            v = out.get(m, 0) + s * x
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        if len(out) > LIMIT:
            raise Big()
        return out

    def rat(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._rat(t)
        self.memo[k] = (t, r)
        return r

    def _rat(self, t):
        one = {(): Fraction(1)}
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return ({(): Fraction(f.numerator, f.denominator)} if f else {}, one)
        if z3.is_int_value(t):
            v = t.as_long()
            return ({(): Fraction(v)} if v else {}, one)
        if not z3.is_app(t):
            return (self.atom(t), one)
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                m, e = self.rat(c)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if e == d:
                    n = self.add(n, m, s)
                else:
                    n = self.add(self.mul(n, e), self.mul(m, d), s)
                    d = self.mul(d, e)
            return (n, d)
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(ch[0])
            return ({m: -x for m, x in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                m, e = self.rat(c)
                n, d = self.mul(n, m), self.mul(d, e)
            return (n, d)
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(ch[0])
            m, e = self.rat(ch[1])
            if not m:
                raise Big()
            if not (len(m) == 1 and () in m):
                self.dens.append(ch[1])
            return (self.mul(n, e), self.mul(d, m))
        if k == z3.Z3_OP_TO_REAL:
            return self.rat(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            f = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if f.denominator == 1 and 0 <= f.numerator <= 8:
                n, d = self.rat(ch[0])
                rn, rd = one, one
                for _ in range(f.numerator):
                    rn, rd = self.mul(rn, n), self.mul(rd, d)
                return (rn, rd)
        return (self.atom(t), one)


def equal(a, b, valid):
    """True if a == b as rational functions; valid(cond) asks whether cond follows from the path"""
    f = Form()
    try:
        n, d = f.rat(a)
        m, e = f.rat(b)
        if d == e:
            z = f.add(n, m, -1)
        else:
            z = f.add(f.mul(n, e), f.mul(m, d), -1)
        z = f.reduce(dict(z))
    except Big:
        return False
    if z:
        return False
    seen = set()
    for q in f.dens:
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if not valid(q != 0):
            return False
    return True
