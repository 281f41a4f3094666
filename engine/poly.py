"""Exact rational-function arithmetic over named generators, with algebraic side rules.

A Rat is num/den: num a polynomial (dict monomial -> coefficient), den a product of polynomial factors.
Generators are inputs of the harness, or stand for a subterm with defining facts (square roots, sines, ...).
A generator g may carry a rule g*g -> polynomial, applied eagerly, so that identities modulo the rules
normalise to 0.  z3 terms are produced from the normal form for the deciding query.
"""
from fractions import Fraction
import math
import z3


class Gen:
    __slots__ = ('id', 'name', 'z', 'square', 'deg', 'facts', 'num', 'deps', 'input')

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.z = z3.Real(name)
        self.square = None      # Poly: g**deg -> square
        self.deg = 2
        self.facts = []         # z3 facts about this generator
        self.num = None         # numeric evaluator: env -> mpf/float
        self.deps = ()          # generator ids the facts mention
        self.input = False


class Ctx:
    """Generators of one exploration (stable across re-executions, because keyed by name)."""

    def __init__(self):
        self.gens = []
        self.byname = {}
        self.apps = {}

    def gen(self, name):
        g = self.byname.get(name)
        if g is None:
            g = Gen(len(self.gens), name)
            self.gens.append(g)
            self.byname[name] = g
        return g


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()
    return CTX


def _c(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def iszero(self):
        return not self.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def add(self, o, k=1):
        if len(self.t) < len(o.t) and k == 1:
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            x = r.get(m, 0) + (c if k == 1 else c * k)
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _c(c * k) for m, c in self.t.items()})

    def mul(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                x = r.get(m, 0) + c1 * c2
                if x:
                    r[m] = _c(x)
                else:
                    r.pop(m, None)
        return reduce(Poly(r))

    def pow(self, n):
        r = ONE
        for _ in range(n):
            r = r.mul(self)
        return r

    def vars(self):
        s = set()
        for m in self.t:
            for v, e in m:
                s.add(v)
        return s

    def z3(self):
        gens = CTX.gens
        terms = []
        for m, c in sorted(self.t.items()):
            fs = []
            for v, e in m:
                fs += [gens[v].z] * e
            c = Fraction(c)
            if not fs:
                terms.append(z3.RealVal(str(c)))
            else:
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                terms.append(p if c == 1 else z3.RealVal(str(c)) * p)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def eval(self, env):
        tot = 0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * env(v) ** e
            tot = tot + x
        return tot

    def __str__(self):
        gens = CTX.gens
        out = []
        for m, c in sorted(self.t.items()):
            out.append('*'.join([str(c)] + ['%s%s' % (gens[v].name, '^%d' % e if e > 1 else '') for v, e in m]))
        return ' + '.join(out) or '0'


ZERO = Poly({})
ONE = Poly({(): 1})


def reduce(p):
    """apply the square rules until none applies"""
    gens = CTX.gens
    while True:
        hit = None
        for m in p.t:
            for v, e in m:
                if e >= 2 and gens[v].square is not None and e >= gens[v].deg:
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        sq = gens[hit].square
        n = gens[hit].deg
        rest = {}
        parts = {}
        for m, c in p.t.items():
            e = dict(m).get(hit, 0)
            if e < n:
                rest[m] = c
            else:
                m2 = tuple((v, (x if v != hit else x % n)) for v, x in m if v != hit or x % n)
                d = parts.setdefault(e // n, {})
                y = d.get(m2, 0) + c
                if y:
                    d[m2] = y
                else:
                    d.pop(m2, None)
        q = Poly(rest)
        for k, d in parts.items():
            q = q.add(Poly(d)._rawmul(sq, k))
        p = q


def _rawmul(self, sq, k):
    r = self
    for _ in range(k):
        out = {}
        for m1, c1 in r.t.items():
            for m2, c2 in sq.t.items():
                m = mmul(m1, m2)
                x = out.get(m, 0) + c1 * c2
                if x:
                    out[m] = _c(x)
                else:
                    out.pop(m, None)
        r = Poly(out)
    return r


Poly._rawmul = _rawmul


def pconst(c):
    c = _c(c)
    return Poly({(): c}) if c else ZERO


def pvar(g):
    return Poly({((g.id, 1),): 1})


def psqrt(p):
    """polynomial q with q*q == p, or None (rational coefficients)"""
    if p.iszero():
        return ZERO
    r = p
    lead = max(p.t)       # any admissible order: use graded by tuple over expanded exponents

    def key(m):
        d = dict(m)
        n = len(CTX.gens)
        return (sum(d.values()), tuple(d.get(i, 0) for i in range(n)))
    lead = max(p.t, key=key)
    c = Fraction(p.t[lead])
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    if any(e % 2 for v, e in lead):
        return None
    l0 = tuple((v, e // 2) for v, e in lead)
    lc = Fraction(a, b)
    q = Poly({l0: _c(lc)})
    for _ in range(len(p.t) + 2):
        rem = p.add(q._rawmul(q, 1), -1)
        if rem.iszero():
            return q
        m = max(rem.t, key=key)
        d = dict(m)
        for v, e in l0:
            d[v] = d.get(v, 0) - e
            if d[v] < 0:
                return None
            if d[v] == 0:
                del d[v]
        nm = tuple(sorted(d.items()))
        if key(nm) >= key(l0):
            return None
        q = q.add(Poly({nm: _c(Fraction(rem.t[m]) / (2 * lc))}))
    return None


def _monic(p):
    """split p = k * q with q canonical (leading coefficient 1)"""
    m = max(p.t)
    k = p.t[m]
    if k == 1:
        return 1, p
    return k, p.scale(Fraction(1) / Fraction(k))


def factors_of(p):
    """p (nonzero) = k * prod f^e with monomial content split off"""
    if p.isconst():
        return p.const(), {}
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    fs = {}
    if common:
        t = {}
        for m, c in p.t.items():
            t[tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0))] = c
        p = Poly(t)
        for v, e in common.items():
            fs[Poly({((v, 1),): 1})] = e
    k, q = _monic(p)
    if not q.isconst():
        fs[q] = fs.get(q, 0) + 1
    return k, fs


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    @staticmethod
    def const(c):
        return Rat(pconst(Fraction(c)))

    def isconst(self):
        return not self.d and self.n.isconst()

    def value(self):
        return Fraction(self.n.const())

    def iszero(self):
        return self.n.iszero()

    def neg(self):
        return Rat(self.n.scale(-1), self.d)

    def add(self, o, k=1):
        if self.n.iszero():
            return o if k == 1 else Rat(o.n.scale(k), o.d)
        if o.n.iszero():
            return self
        if self.d == o.d:
            return Rat(self.n.add(o.n, k), self.d).tidy()
        d = dict(self.d)
        for f, e in o.d.items():
            d[f] = max(d.get(f, 0), e)
        n1 = self.n
        n2 = o.n
        for f, e in d.items():
            x = e - self.d.get(f, 0)
            if x:
                n1 = n1.mul(f.pow(x))
            x = e - o.d.get(f, 0)
            if x:
                n2 = n2.mul(f.pow(x))
        return Rat(n1.add(n2, k), d).tidy()

    def tidy(self):
        if self.n.iszero():
            return Rat(ZERO)
        return self

    def mul(self, o):
        if self.n.iszero() or o.n.iszero():
            return Rat(ZERO)
        if not self.d and not o.d:
            return Rat(self.n.mul(o.n))
        n1, n2 = self.n, o.n
        d = dict(self.d)
        for f, e in o.d.items():
            d[f] = d.get(f, 0) + e
        # cheap cancellation: a numerator whose factor list meets the denominator
        outs = []
        kk = 1
        for n in (n1, n2):
            if n.isconst():
                outs.append(n)
                continue
            k, fs = factors_of(n)
            hit = False
            for f in list(fs):
                if f in d:
                    c = min(fs[f], d[f])
                    fs[f] -= c
                    d[f] -= c
                    if not d[f]:
                        del d[f]
                    hit = True
            if hit:
                r = pconst(k)
                for f, e in fs.items():
                    if e:
                        r = r.mul(f.pow(e))
                outs.append(r)
            else:
                outs.append(n)
        return Rat(outs[0].mul(outs[1]), d).tidy()

    def inv(self):
        k, fs = factors_of(self.n)
        n = pconst(Fraction(1) / Fraction(k))
        for f, e in self.d.items():
            n = n.mul(f.pow(e))
        # cancel den factors equal to new den factors is impossible here (they came from num/den of one Rat)
        return Rat(n, fs)

    def div(self, o):
        """self / o; the denominator of o meets that of self before anything is multiplied out"""
        k, fs = factors_of(o.n)
        d = dict(self.d)
        rest = []
        for f, e in o.d.items():
            c = min(e, d.get(f, 0))
            if c:
                d[f] -= c
                if not d[f]:
                    del d[f]
            if e > c:
                rest.append((f, e - c))
        r = Rat(self.n, d).mul(Rat(pconst(Fraction(1) / Fraction(k)), fs))
        for f, e in rest:
            for _ in range(e):
                r = r.mul(Rat(f))
        return r

    def key(self):
        return (self.n, frozenset(self.d.items()))

    def den(self):
        r = ONE
        for f, e in self.d.items():
            r = r.mul(f.pow(e))
        return r

    def signpoly(self):
        """polynomial with the sign of this value (denominator non-zero assumed)"""
        n = self.n
        for f, e in self.d.items():
            if e % 2:
                n = n.mul(f)
        return n

    def vars(self):
        s = self.n.vars()
        for f in self.d:
            s |= f.vars()
        return s

    def eval(self, env):
        x = self.n.eval(env)
        for f, e in self.d.items():
            x = x / f.eval(env) ** e
        return x

    def __str__(self):
        s = '(%s)' % self.n
        if self.d:
            s += '/' + '/'.join('(%s)^%d' % (f, e) for f, e in self.d.items())
        return s
