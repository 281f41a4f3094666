"""Signs of polynomials whose variables have lower bounds on the path (shift to the bounds, compare coefficients)."""
from fractions import Fraction
import mpmath
import z3
import poly

mpmath.mp.dps = max(mpmath.mp.dps, 50)
import os
DBG = bool(os.environ.get('VP_TRACE'))
EPS = mpmath.mpf(10) ** -15


def atom(c):
    """(generator name, bound, strict) of  g > c  /  g >= c, else None"""
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    k = c.decl().kind() if z3.is_app(c) else None
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    l, r = c.arg(0), c.arg(1)
    lower = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    if z3.is_rational_value(l):
        l, r, lower = r, l, not lower
    if not z3.is_rational_value(r) or not z3.is_const(l):
        return None
    if neg:
        lower, strict = not lower, not strict
    if not lower:
        return None
    return l.decl().name(), r.as_fraction(), strict


class Bounds:
    def __init__(self):
        self.low = {}
        self.n = 0

    def update(self, pc):
        for c in pc[self.n:]:
            todo = [c]
            while todo:
                x = todo.pop()
                if z3.is_and(x):
                    todo += x.children()
                    continue
                if z3.is_not(x) and z3.is_or(x.arg(0)):
                    todo += [z3.Not(y) if not z3.is_not(y) else y.arg(0) for y in x.arg(0).children()]
                    continue
                a = atom(x)
                if a is None:
                    continue
                g = poly.CTX.byname.get(a[0])
                if g is None:
                    continue
                old = self.low.get(g.id)
                if old is None or (a[1], a[2]) > old:
                    self.low[g.id] = (a[1], a[2])
        self.n = len(pc)

    def get(self, i):
        b = self.low.get(i)
        if b is not None and b[0] >= 0:
            return b
        n = poly.CTX.gens[i].name.split('!')
        if len(n) == 2:
            if n[0] in ('exp', 'pow10'):
                return (Fraction(0), True)
            if n[0] in ('cosh', 'coshN'):
                return (Fraction(1), False)
            if n[0] in ('sqrt', 'acosh'):
                return (Fraction(0), False)
        return None

    def sign(self, p):
        r = self.sign_(p)
        if DBG and r is None:
            print('NOSIGN', p, {poly.CTX.gens[k].name: str(v) for k, v in self.low.items()})
        return r

    def sign_(self, p):
        """(1 or -1, strictly) or None"""
        if len(p.t) > 400:
            return None
        gens = poly.CTX.gens
        # coefficients: polynomials in numeric generators, evaluated
        t = {}
        even = {}
        for m, c in p.t.items():
            x = mpmath.mpf(Fraction(c).numerator) / Fraction(c).denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            sm = []
            for v, e in m:
                if gens[v].num is not None:
                    x = x * gens[v].num ** e
                else:
                    sm.append((v, e))
                    even[v] = even.get(v, True) and e % 2 == 0
            sm = tuple(sm)
            t[sm] = t.get(sm, 0) + x
        low = {}
        for v in even:
            b = self.get(v)
            if b is not None:
                low[v] = b
            elif even[v]:
                low[v] = (Fraction(0), False)
            else:
                return None
        for step in range(2):
            sg = set()
            scale = max(abs(x) for x in t.values())
            for x in t.values():
                if abs(x) <= EPS * scale:
                    sg.add(0)
                else:
                    sg.add(1 if x > 0 else -1)
            if 0 in sg:
                return None
            if len(sg) == 1:
                s = sg.pop()
                strict = False
                for m in t:
                    if all(low[v][0] > 0 or low[v][1] for v, e in m):
                        strict = True
                return s, strict
            sh = [v for v in low if low[v][0] > 0]
            if step or not sh:
                return None
            for v in sh:
                c = mpmath.mpf(low[v][0].numerator) / low[v][0].denominator
                r = {}
                for m, x in t.items():
                    d = dict(m)
                    e = d.pop(v, 0)
                    for k in range(e + 1):
                        d2 = dict(d)
                        if k:
                            d2[v] = k
                        mm = tuple(sorted(d2.items()))
                        r[mm] = r.get(mm, 0) + x * mpmath.binomial(e, k) * c ** (e - k)
                big = max(abs(x) for x in t.values()) * 2 ** 20
                t = {m: x for m, x in r.items() if abs(x) > mpmath.mpf(10) ** -35 * big}
                low[v] = (Fraction(0), low[v][1])
            if not t:
                return None
        return None
