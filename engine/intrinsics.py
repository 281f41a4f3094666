"""Models of the functions the executor does not step into: harness primitives, libm, libc, runtime."""
from fractions import Fraction
import random
import math
import re
import z3
import mpmath
import poly
from poly import Rat
import sym as S

mpmath.mp.dps = 40


def start(E):
    E.inputs_on_path = {}
    E.anglebase = {}
    import mcu
    import text
    mcu.start(E)
    text.start(E)


# ------------------------------------------------------------------------------- inputs
def earlier(E, name, kind, w):
    """input of the earlier use of the library (Engine.histories)"""
    r = E.prerng
    s = E.pre.get(name)
    if s is None:
        if kind == 'choose':
            s = str(r.randrange(w))
        elif kind == 'int':
            s = str(r.choice([r.randrange(10), r.randrange(1 << w), r.randrange(1 << w), 1 << r.randrange(w)]) & ((1 << w) - 1))
        else:
            s = repr(r.choice([r.randint(1, 9) / 4, r.randint(1, 15) / 16, r.randint(-12, 12) / 4]))
        E.pre[name] = s
    if kind in ('int', 'choose'):
        return int(s)
    if kind == 'real':
        return rv(Fraction(s))
    so = z3.Float64() if w == 64 else z3.Float32()
    if s.startswith('bits:'):
        return S.simp(z3.fpBVToFP(z3.BitVecVal(int(s[5:]), w), so))
    return z3.FPVal(float(s), so)


def unless_earlier(f):
    def g(E, a, rt, at):
        if E.pre is None:
            return f(E, a, rt, at)
    return g


def uname(E, name):
    n = E.counters.get(('in', name), 0)
    E.counters[('in', name)] = n + 1
    return name if n == 0 else '%s#%d' % (name, n)


def vp_sym_int(E, a, rt, at):
    name = uname(E, E.cstr(a[0]))
    w = a[1]
    if E.pre is not None:
        return earlier(E, name, 'int', w)
    v = z3.BitVec(name, w)
    E.inputs_on_path[name] = dict(kind='int', w=w, z=name)
    if w < 64:
        return z3.ZeroExt(64 - w, v)
    return v


def vp_sym_small(E, a, rt, at):
    """an integer between two bounds"""
    name = uname(E, E.cstr(a[0]))
    lo, hi = S.sgn(a[1], 32), S.sgn(a[2], 32)
    if E.pre is not None:
        v = earlier(E, name, 'int', 16)
        return S.mask(S.sgn(v, 16), 64) if isinstance(v, int) else z3.SignExt(48, v)
    v = z3.BitVec(name, 16)
    E.inputs_on_path[name] = dict(kind='int', w=16, z=name)
    E.add(v >= lo)
    E.add(v <= hi)
    S.int_range(name, lo, hi)
    return z3.SignExt(48, v)


def int_sample(E, neg, tries):
    """model search with the bounded integers fixed; every hit is confirmed by the solver"""
    cons = (E.cone([neg]) if not z3.is_true(neg) else list(E.pc)) + [neg]
    ins = [n for n in E.inputs_on_path if n in S._iranges]
    for k in range(tries):
        vals = {n: _rng.randint(*S._iranges[n]) for n in ins}
        sub = [(z3.BitVec(n, 16), z3.BitVecVal(v, 16)) for n, v in vals.items()]
        cs = [z3.simplify(z3.substitute(c, *sub)) for c in cons]
        if any(z3.is_false(c) for c in cs):
            continue
        r, m = E.solve([c for c in cs if not z3.is_true(c)], 400, feas=True)
        if r == z3.sat:
            out = {d.name(): m[d] for d in m.decls()}
            out.update({n: z3.BitVecVal(v, 16) for n, v in vals.items()})
            return out
    return None


def vp_sym_real(E, a, rt, at):
    name = uname(E, E.cstr(a[0]))
    if E.pre is not None:
        return earlier(E, name, 'real' if E.real else 'fp', rt[1])
    if E.real:
        g = poly.CTX.gen(name)
        g.input = True
        E.inputs_on_path[name] = dict(kind='real', z=name)
        return Rat(poly.pvar(g))
    so = z3.Float64() if rt[1] == 64 else z3.Float32()
    E.inputs_on_path[name] = dict(kind='f64' if rt[1] == 64 else 'f32', z=name)
    return z3.FP(name, so)


def vp_sym_f32(E, a, rt, at):
    if E.real:
        return vp_sym_real(E, a, rt, at)
    name = uname(E, E.cstr(a[0]))
    if E.pre is not None:
        return earlier(E, name, 'fp', 32)
    E.inputs_on_path[name] = dict(kind='f32', z=name)
    return z3.FP(name, z3.Float32())


def vp_choose(E, a, rt, at):
    name = uname(E, E.cstr(a[0]))
    n = a[1]
    if E.pre is not None:
        return earlier(E, name, 'choose', n)
    k = E.choose(n)
    E.inputs_on_path[name] = dict(kind='const', z=name, v=k)
    return k


def vp_assume(E, a, rt, at):
    c = a[0]
    if c is S.NONFIN:
        raise S.Candidate('nonfinite', 'assumption on a non-finite value', E.where())
    E.assume(c)


@unless_earlier
def vp_check(E, a, rt, at):
    msg = E.cstr(a[1])
    E.check(a[0], 'check', msg)


@unless_earlier
def vp_eq(E, a, rt, at):
    x, y = a[0], a[1]
    msg = E.cstr(a[2])
    if x is S.UNDEF or y is S.UNDEF:
        raise S.Candidate('uninit', msg, E.where())
    if E.real:
        if x is S.NONFIN or y is S.NONFIN:
            raise S.Candidate('nonfinite', msg, E.where())
        d = x.add(y, -1)
        c = E.rcmp('eq', x, y)
        if isinstance(c, int) and c:
            E.check_identity(x, y, msg)
            return
        E.check(c, 'check', msg)
        return
    E.check(S.simp(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))), 'check', msg)


@unless_earlier
def vp_le(E, a, rt, at):
    x, y = a[0], a[1]
    msg = E.cstr(a[2])
    E.check(E.fcmp('ole', None, x, y), 'check', msg)


def vp_note(E, a, rt, at):
    E.notes.append(E.cstr(a[0]))


def vp_reach(E, a, rt, at):
    msg = E.cstr(a[0])
    E.stats.checks[msg] = E.stats.checks.get(msg, 0) + 1


@unless_earlier
def vp_fail(E, a, rt, at):
    raise S.Candidate('check', E.cstr(a[0]), E.where())


def vp_end(E, a, rt, at):
    raise S.PathEnd()


def vp_is_engine(E, a, rt, at):
    return 1


def vp_pin(E, a, rt, at):
    """enumerate completely the feasible values of an integer"""
    return E.concretize(a[0], 32 if not E.avr else a[0].size() if S.is_sym(a[0]) else 16)


def value_str(inp, v):
    if inp['kind'] == 'const':
        return str(inp['v'])
    if v is None:
        return '0'
    if inp['kind'] == 'int':
        x = v.as_long() if hasattr(v, 'as_long') else int(v)
        return str(x)
    if inp['kind'] in ('f64', 'f32'):
        b = z3.simplify(z3.fpToIEEEBV(v))
        return 'bits:%d' % (b.as_long() if z3.is_bv_value(b) else 0)
    if isinstance(v, Fraction):
        return repr(float(v))
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return repr(float(v.as_fraction()))


_rng = random.Random(1)


def sample(E, neg, tries):
    """model search with the real inputs fixed to small rationals; every hit is confirmed by the solver"""
    cone = E.cone([neg]) if not z3.is_true(neg) else list(E.pc)
    cons = cone + [neg]
    names = set()
    for c in cons:
        names |= S.zvars(c)
    if z3.is_true(neg):
        for n in list(names):
            g = poly.CTX.byname.get(n)
            if g is not None and g.facts:
                for f in g.facts:
                    cons.append(f)
                    names |= S.zvars(f)
    # inputs that only the rest of the path condition speaks about are taken from a model of that rest
    ids = set(c.get_id() for c in cone)
    rest = [c for c in E.pc if c.get_id() not in ids]
    more = set()
    for c in rest:
        more |= S.zvars(c)
    ins = [n for n, i in E.inputs_on_path.items() if i['kind'] == 'real' and (n in names or n not in more)]
    others = None
    for k in range(tries):
        sub = []
        vals = {}
        for n in ins:
            mode = k % 3
            if mode == 0:
                q = Fraction(_rng.randint(1, 9), 4)
            elif mode == 1:
                q = Fraction(_rng.randint(1, 15), 16)
            else:
                q = Fraction(_rng.randint(-12, 12) or 1, 4)
            vals[n] = q
            sub.append((z3.Real(n), z3.RealVal(str(q))))
        cs = [z3.simplify(z3.substitute(c, *sub)) for c in cons]
        if any(z3.is_false(c) for c in cs):
            continue
        r, m = E.solve([c for c in cs if not z3.is_true(c)], 400, feas=True)
        if r == z3.sat:
            out = {d.name(): m[d] for d in m.decls()}
            for n in vals:
                out[n] = vals[n]
            if rest and others is None:
                others = {}
                facts = []
                for n in more:
                    g = poly.CTX.byname.get(n)
                    if g is not None:
                        facts += g.facts
                r2, m2 = E.solve(rest + facts, 2000, feas=True)
                if r2 == z3.sat:
                    others = {d.name(): m2[d] for d in m2.decls()}
            for n in others or ():
                out.setdefault(n, others[n])
            return out
    return None


# ------------------------------------------------------------------------------- real-valued libm
def rv(q):
    return Rat.const(Fraction(q))


def same_app(fn, key):
    """an application of fn to the same value, written otherwise"""
    if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], frozenset)):
        return None
    x = Rat(key[0], dict(key[1]))
    vs = x.vars()
    for k, g in list(poly.CTX.apps.items()):
        if k[0] != fn or not (isinstance(k[1], tuple) and len(k[1]) == 2 and isinstance(k[1][1], frozenset)):
            continue
        y = Rat(k[1][0], dict(k[1][1]))
        if y.vars() != vs or len(x.n.t) * len(y.n.t) > 4000:
            continue
        if x.add(y, -1).iszero():
            return g
    return None


def gen_for(E, fn, key, make):
    k = (fn, key)
    g = poly.CTX.apps.get(k)
    if g is None:
        g = same_app(fn, key)
        if g is not None:
            poly.CTX.apps[k] = g
    if g is None:
        g = poly.CTX.gen('%s!%d' % (fn, len(poly.CTX.apps)))
        poly.CTX.apps[k] = g
        make(g)
    return g


def bounds(g, x):
    """numeric enclosure of a constant as z3 facts"""
    q = Fraction(str(mpmath.nstr(x, 25)))
    e = Fraction(1, 10 ** 20)
    g.facts.append(z3.And(g.z >= z3.RealVal(str(q - e)), g.z <= z3.RealVal(str(q + e))))
    g.num = x


def mpf(fr):
    return mpmath.mpf(fr.numerator) / fr.denominator


def nf(f):
    def w(E, a, rt, at):
        for x in a:
            if x is S.UNDEF:
                return S.UNDEF
            if x is S.NONFIN:
                return S.NONFIN
        return f(E, a, rt, at)
    return w


def r_abs(E, x):
    if x.isconst():
        return Rat.const(abs(x.value()))
    c = E.rcmp('ge', x, rv(0))
    return x if E.decide(c) else x.neg()


def r_sqrt(E, x):
    if x.isconst():
        v = x.value()
        if v < 0:
            return S.NONFIN
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return rv(Fraction(a, b))
    elif not E.decide(E.rcmp('ge', x, rv(0))):
        return S.NONFIN
    n = x.n
    den = Rat(poly.ONE)
    for f, e in x.d.items():
        if e % 2:
            n = n.mul(f)
        h = (e + 1) // 2
        fr = Rat(f)
        if h % 2:
            fr = r_abs(E, fr)
        for _ in range(h):
            den = den.mul(fr)
    r = psqrt_rat(E, n)
    return r.mul(den.inv()) if not den.isconst() else r


def psqrt_rat(E, n):
    if n.iszero():
        return rv(0)
    k, fs = poly.factors_of(n)
    out = rv(1)
    rest = poly.pconst(k)
    for f, e in fs.items():
        if e >= 2:
            a = Rat(f)
            if (e // 2) % 2:
                a = r_abs(E, a)
            for _ in range(e // 2):
                out = out.mul(a)
        if e % 2:
            rest = rest.mul(f)
    q = poly.psqrt(rest)
    if q is not None:
        return out.mul(r_abs(E, Rat(q)))
    for g in poly.CTX.gens:
        if g.square is not None and g.deg == 2 and g.square == rest:
            return out.mul(r_abs(E, Rat(poly.pvar(g))))
    if rest.isconst():
        # sqrt(p/q) = sqrt(p*q)/q, square-free part
        v = Fraction(rest.const())
        m = v.numerator * v.denominator
        o = Fraction(1, v.denominator)
        i = 2
        while i * i <= m and i < 1000:
            while m % (i * i) == 0:
                m //= i * i
                o *= i
            i += 1
        rest = poly.pconst(m)
        out = out.mul(rv(o))

        def mk(g):
            g.square = rest
            g.facts.append(z3.And(g.z >= 0, g.z * g.z == z3.RealVal(m)))
            bounds(g, mpmath.sqrt(m))
        g = gen_for(E, 'sqrt', rest, mk)
        return out.mul(Rat(poly.pvar(g)))

    def mk(g):
        g.square = rest
        g.facts.append(z3.And(g.z >= 0, g.z * g.z == rest.z3()))
    g = gen_for(E, 'sqrt', rest, mk)
    return out.mul(Rat(poly.pvar(g)))


def single(x):
    """x == k * g for one generator g: (k, gen) else None"""
    if x.d or len(x.n.t) != 1:
        return None
    (m, c), = x.n.t.items()
    if len(m) == 1 and m[0][1] == 1:
        return Fraction(c), poly.CTX.gens[m[0][0]]
    return None


def app_of(g, fn):
    for k, v in poly.CTX.apps.items():
        if v is g and k[0] == fn:
            return k[1]
    return None


def ratkey(x):
    return (x.n, frozenset(x.d.items()))


def unkey(k):
    return Rat(k[0], dict(k[1]))


def ipow(E, x, n):
    if n < 0:
        y = ipow(E, x, -n)
        return E.rdiv(rv(1), y)
    r = rv(1)
    for _ in range(n):
        r = r.mul(x)
    return r


def neg_lead(x):
    m = max(x.n.t)
    return x.n.t[m] < 0


def monotone(E, fn, g, x):
    """order facts between g = fn(x) and the other applications of an increasing function"""
    if any(f is g for f, _ in poly.CTX.apps.setdefault(('mono', fn), [])):
        return
    seen = poly.CTX.apps[('mono', fn)]
    if len(seen) >= 6:
        return
    for h, y in seen:
        if x.isconst() and y.isconst():
            continue
        g.facts.append(E.rcmp_pure('lt', x, y) == (g.z < h.z))
        g.facts.append(E.rcmp_pure('eq', x, y) == (g.z == h.z))
    seen.append((g, x))


# natural logarithms of 2 and 10: the nearest doubles stand for them, so that literals of them agree with the library
LN = {2: Fraction(math.log(2)), 10: Fraction(math.log(10))}


def snap(k):
    """the simple fraction a double constant stands for, else the constant itself"""
    q = Fraction(k).limit_denominator(64)
    return q if q and abs(k - q) <= abs(q) / (1 << 50) else Fraction(k)


def const_log(x):
    """x == k * log(n) for a simple n and k: (n, k) else None"""
    for n in (10, 2):
        k = snap(x / LN[n])
        if k.denominator <= 64:
            return n, k
    for b in range(-8, 9):
        k = snap((x - b * LN[10]) / LN[2]) if b else Fraction(1, 99)
        if k.denominator == 1 and abs(k) <= 64:
            return Fraction(10) ** b * Fraction(2) ** int(k), Fraction(1)
    return None


def root_power(E, x, k):
    """x ** k for x > 0 and k = n/1 or n/2"""
    if k.denominator == 2:
        x = r_sqrt(E, x)
        if x is S.NONFIN:
            return x
    return ipow(E, x, k.numerator)


def r_exp(E, x):
    if x.iszero():
        return rv(1)
    if not x.d:
        # the terms that are multiples of logarithms
        logs = {}
        for k, g in poly.CTX.apps.items():
            if k[0] == 'log':
                logs[g.id] = k[1]
        out, rest = None, {}
        for m, c in x.n.t.items():
            f = None
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in logs:
                k = snap(Fraction(c))
                if k.denominator <= 2 and abs(k) <= 16:
                    f = root_power(E, unkey(logs[m[0][0]]), k)
            elif not m:
                nk = const_log(Fraction(c))
                if nk is not None and nk[1].denominator <= 2 and abs(nk[1]) <= 64:
                    f = root_power(E, rv(nk[0]), nk[1])
            if f is None:
                rest[m] = c
            else:
                out = f if out is None else out.mul(f)
        if out is not None:
            return out.mul(r_exp(E, Rat(poly.Poly(rest))))
    if neg_lead(x):
        return r_exp(E, x.neg()).inv()

    def mk(g):
        g.facts.append(g.z > 0)
        if x.isconst():
            bounds(g, mpmath.exp(mpf(x.value())))
    g = gen_for(E, 'exp', ratkey(x), mk)
    if not g.facts[1:] and not x.isconst():
        pos = E.rcmp_pure('gt', x, rv(0))
        g.facts.append(pos == (g.z > 1))
        zer = E.rcmp_pure('eq', x, rv(0))
        g.facts.append(zer == (g.z == 1))
    monotone(E, 'exp', g, x)
    return Rat(poly.pvar(g))


def power_of(x):
    """x == g^k for one generator g: (g, k) else None"""
    x = x.mul(rv(1))
    if len(x.n.t) != 1:
        return None
    (m, c), = x.n.t.items()
    if c != 1:
        return None
    if not x.d and len(m) == 1:
        return poly.CTX.gens[m[0][0]], m[0][1]
    if not m and len(x.d) == 1:
        (f, e), = x.d.items()
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if c == 1 and len(m) == 1:
                return poly.CTX.gens[m[0][0]], -e * m[0][1]
    return None


def exact_sqrt(E, x):
    """non-negative square root of x if it is a rational function, else None"""
    if x.isconst() or any(e % 2 for e in x.d.values()):
        return None
    k, fs = poly.factors_of(x.n)
    q = poly.psqrt(poly.pconst(k))
    if q is None:
        return None
    out = Rat(q)
    for f, e in fs.items():
        if e % 2:
            h = poly.psqrt(f.pow(e))
            if h is None:
                return None
            out = out.mul(Rat(h))
        else:
            out = out.mul(Rat(f.pow(e // 2)))
    for f, e in x.d.items():
        out = out.mul(Rat(f.pow(e // 2)).inv())
    return r_abs(E, out)


def const_log_of(v):
    """logarithm of a positive constant: multiples of those of 2 and 10, and of what remains"""
    out = Fraction(0)
    n, d = v.numerator, v.denominator
    p = [0, 0]          # powers of 2 and 5
    for i, q in ((0, 2), (1, 5)):
        while n % q == 0:
            n //= q
            p[i] += 1
        while d % q == 0:
            d //= q
            p[i] -= 1
    out = p[0] * LN[2] + p[1] * (LN[10] - LN[2])
    return rv(out), Fraction(n, d)


def r_log(E, x):
    if x.isconst():
        v = x.value()
        if v <= 0:
            return S.NONFIN
        out, v = const_log_of(v)
        if v == 1:
            return out
        if v < 1:
            return out.add(r_log(E, rv(1 / v)), -1)
        return out.add(Rat(poly.pvar(gen_for(E, 'log', ratkey(rv(v)), lambda g: bounds(g, mpmath.log(mpf(v)))))))
    if not E.decide(E.rcmp('gt', x, rv(0))):
        return S.NONFIN
    x = x.mul(rv(1))
    h = area(E, x)
    if h is not None:
        return h
    # a product of powers of positive things
    k, fs = poly.factors_of(x.n)
    fs = dict(fs)
    for f, e in x.d.items():
        fs[f] = fs.get(f, 0) - e
    if (k != 1 or len(fs) > 1 or any(e != 1 for e in fs.values())) and all(len(f.t) == 1 for f in fs):
        if k > 0 and all(entailed(E, E.rcmp('gt', Rat(f), rv(0))) for f in fs):
            out = r_log(E, rv(k))
            for f, e in fs.items():
                out = out.add(log1(E, Rat(f)).mul(rv(e)))
            return out
    return log1(E, x)


def area(E, x):
    """log(p + sqrt(p*p + 1)) is asinh p, log(p + sqrt(p*p - 1)) is acosh p"""
    for i in x.n.vars():
        r = poly.CTX.gens[i]
        if r.square is None or not r.name.startswith('sqrt!') or any(i in f.vars() for f in x.d):
            continue
        a, b = {}, {}
        for m, c in x.n.t.items():
            if (i, 1) in m:
                b[tuple(v for v in m if v[0] != i)] = c
            else:
                a[m] = c
        if not a or not b:
            continue
        A, B = poly.Poly(a), poly.Poly(b)
        d = Rat(poly.ONE, x.d).inv()
        norm = Rat(A.mul(A).add(B.mul(B).mul(r.square), -1))
        p = Rat(A, x.d)
        if exact_sqrt(E, p.mul(p).add(rv(1))) is not None:
            continue
        if norm.add(d.mul(d)).iszero():
            return r_asinh(E, p)
        if norm.add(d.mul(d), -1).iszero():
            g = r_acosh(E, p)
            if g is S.NONFIN:
                continue
            return g if E.decide(E.rcmp('ge', x, rv(1))) else g.neg()
    return None


def entailed(E, c):
    if isinstance(c, int):
        return bool(c)
    r, m = E.solve(E.cone([z3.Not(c)]) + [z3.Not(c)], 500, feas=True)
    return r == z3.unsat


def log1(E, x):
    p = power_of(x)
    if p is not None and p[1] == 1:
        a = app_of(p[0], 'exp')
        if a is not None:
            return unkey(a)
    g = gen_for(E, 'log', ratkey(x), lambda g: None)
    if not g.facts:
        g.facts.append(E.rcmp_pure('gt', x, rv(1)) == (g.z > 0))
        g.facts.append(E.rcmp_pure('eq', x, rv(1)) == (g.z == 0))
    monotone(E, 'log', g, x)
    return Rat(poly.pvar(g))


def r_log10(E, x):
    r = r_log(E, x)
    return r if r is S.NONFIN else linear(r, 1 / LN[10])


def r_log2(E, x):
    r = r_log(E, x)
    return r if r is S.NONFIN else linear(r, 1 / LN[2])


def linear(r, k):
    """k * r; a constant that stands for a simple number becomes it"""
    r = r.mul(rv(k))
    if not r.d and () in r.n.t:
        c = Fraction(r.n.t[()])
        r = r.add(rv(snap(c) - c))
    return r


def r_pow(E, b, e):
    if e.isconst():
        v = e.value()
        if v.denominator == 1 and abs(v) <= 64:
            return ipow(E, b, int(v))
        if v.denominator == 2 and abs(v) <= 16:
            r = r_sqrt(E, b)
            return r if r is S.NONFIN else ipow(E, r, int(v * 2))
    if b.isconst() and b.value() > 0 or not b.isconst() and entailed(E, E.rcmp('gt', b, rv(0))):
        return r_exp(E, r_log(E, b).mul(e))
    # uninterpreted
    g = gen_for(E, 'pow', (ratkey(b), ratkey(e)), lambda g: None)
    return Rat(poly.pvar(g))


def r_tan(E, x):
    if x.iszero():
        return rv(0)
    if neg_lead(x):
        r = r_tan(E, x.neg())
        return r if r is S.NONFIN else r.neg()
    s = single(x)
    if s is not None:
        a = app_of(s[1], 'atan')
        k = snap(s[0])
        if a is not None and k == 1:
            return unkey(a)
    s, c = trig(E, x)
    for g, what in ((single(s), 'pos'), (single(c), 'cos')):
        if g is None or g[0] != 1 or x.isconst():
            continue
        k = ('quadrant', g[1].id)
        if k not in poly.CTX.apps:
            poly.CTX.apps[k] = True
            top = S.PI_D if what == 'pos' else S.PI_D / 2
            low = Fraction(0) if what == 'pos' else -S.PI_D / 2
            g[1].facts.append(z3.Implies(z3.And(E.rcmp_pure('gt', x, rv(low)), E.rcmp_pure('lt', x, rv(top))), g[1].z > 0))
    return E.rdiv(s, c)


def r_atan(E, x):
    if x.iszero():
        return rv(0)

    def mk(g):
        # the double nearest to pi stands for pi
        g.facts.append(z3.And(g.z < z3.RealVal(str(S.PI_D / 2)), g.z > z3.RealVal(str(-S.PI_D / 2))))
        if x.isconst():
            bounds(g, mpmath.atan(mpf(x.value())))
    g = gen_for(E, 'atan', ratkey(x), mk)
    if len(g.facts) == 1:
        g.facts.append(E.rcmp_pure('gt', x, rv(0)) == (g.z > 0))
        g.facts.append(E.rcmp_pure('eq', x, rv(0)) == (g.z == 0))
    return Rat(poly.pvar(g))


def exact_trig(E, r):
    """(sin, cos) of r*pi as algebraic numbers (the double nearest to pi stands for pi)"""
    q = r.denominator
    half = Rat.const(Fraction(1, 2))
    two = lambda: r_sqrt(E, rv(2))
    if q == 1:
        b = (rv(0), rv(-1))
    elif q == 2:
        b = (rv(1), rv(0))
    elif q == 3:
        b = (r_sqrt(E, rv(3)).mul(half), half)
    elif q == 4:
        b = (two().mul(half), two().mul(half))
    elif q == 6:
        b = (half, r_sqrt(E, rv(3)).mul(half))
    elif q == 8:
        c = nested_sqrt(E, rv(2).add(two())).mul(half)
        b = (c.mul(two().add(rv(-1))), c)
    elif q == 16:
        g8 = nested_sqrt(E, rv(2).add(two()))
        c8 = g8.mul(half)
        c = nested_sqrt(E, rv(2).add(g8)).mul(half)
        b = (two().mul(rv(2)).mul(c).mul(c8).mul(rv(1).add(c8, -1)), c)
    elif q in (7, 9):
        g = two_cos(E, q)
        b = (nested_sqrt(E, rv(4).add(g.mul(g), -1)).mul(half), g.mul(half))
    elif q == 20:
        r5 = r_sqrt(E, rv(5))
        g10 = nested_sqrt(E, rv(10).add(r5.mul(rv(2))))
        c = nested_sqrt(E, rv(8).add(g10.mul(rv(2)))).mul(rv(Fraction(1, 4)))
        b = (c.mul(rv(1).add(g10.mul(rv(Fraction(1, 4))), -1)).mul(r5.add(rv(1))), c)
    elif q in (5, 10):
        r5 = r_sqrt(E, rv(5))
        b = (r5.add(rv(-1)).mul(rv(Fraction(1, 4))), nested_sqrt(E, rv(10).add(r5.mul(rv(2)))).mul(rv(Fraction(1, 4))))
    elif q == 12:
        r3 = r_sqrt(E, rv(3))
        b = (two().mul(r3.add(rv(-1))).mul(rv(Fraction(1, 4))), two().mul(r3.add(rv(1))).mul(rv(Fraction(1, 4))))
    else:
        return None
    p = r.numerator
    if q == 5:
        p, q = 2 * p, 10
    p %= 2 * q
    s, c = rv(0), rv(1)
    for _ in range(p):
        s, c = s.mul(b[1]).add(c.mul(b[0])), c.mul(b[1]).add(s.mul(b[0]), -1)
    return s, c


def two_cos(E, q):
    """2 cos(pi/q), a root of a cubic"""
    def mk(g):
        x = poly.pvar(g)
        g.deg = 3
        g.square = x.mul(x).add(x.scale(2)).add(poly.ONE, -1) if q == 7 else x.scale(3).add(poly.ONE)
        g.facts.append(z3.And(g.z > 1, g.z * g.z * g.z == g.square.z3()))
        bounds(g, 2 * mpmath.cos(mpmath.pi / q))
    return Rat(poly.pvar(gen_for(E, 'twocos', q, mk)))


def nested_sqrt(E, x):
    def mk(g):
        g.square = x.n
        v = mpmath.sqrt(x.n.eval(lambda i: poly.CTX.gens[i].num))
        g.facts.append(z3.And(g.z >= 0, g.z * g.z == x.n.z3()))
        bounds(g, v)
    return Rat(poly.pvar(gen_for(E, 'sqrt', x.n, mk)))


def atan_trig(E, t, k):
    """(sin, cos) of k * atan(t)"""
    h = t.mul(t).add(rv(1))
    s2, c2 = E.rdiv(t.mul(rv(2)), h), E.rdiv(rv(1).add(t.mul(t), -1), h)
    if k % 2:
        r = r_sqrt(E, h)
        s, c = E.rdiv(t.mul(r), h), E.rdiv(r, h)
    else:
        s, c = rv(0), rv(1)
    for _ in range(k // 2):
        s, c = s.mul(c2).add(c.mul(s2)), c.mul(c2).add(s.mul(s2), -1)
    return s, c


def trig(E, x):
    """(sin x, cos x)"""
    if x.iszero():
        return rv(0), rv(1)
    if neg_lead(x):
        s, c = trig(E, x.neg())
        return s.neg(), c
    if not x.d:
        # multiples of an arc tangent; sums with multiples of pi
        ms = [m for m in x.n.t]
        if len(ms) > 1:
            for m in ms:
                if not m or (len(m) == 1 and m[0][1] == 1 and app_of(poly.CTX.gens[m[0][0]], 'atan') is not None):
                    s1, c1 = trig(E, Rat(poly.Poly({m: x.n.t[m]})))
                    s2, c2 = trig(E, Rat(poly.Poly({n: x.n.t[n] for n in ms if n != m})))
                    return s1.mul(c2).add(c1.mul(s2)), c1.mul(c2).add(s1.mul(s2), -1)
        p = single(x)
        a = p and app_of(p[1], 'atan')
        if a is not None:
            k = snap(p[0])
            if k.denominator == 1 and k <= 16:
                return atan_trig(E, unkey(a), int(k))
    if x.isconst():
        r = snap(x.value() / S.PI_D)
        if r.denominator <= 20:
            e = exact_trig(E, r)
            if e is not None:
                return e
        base, k = x, Fraction(1)
    else:
        m = max(x.n.t)
        k = Fraction(x.n.t[m])
        base = x.mul(rv(1 / k))
    key = ratkey(base)
    if not x.isconst():
        c0 = E.anglebase.get(key)
        if c0 is None:
            # one base per direction for the whole run: smallest multiple first seen
            c0 = poly.CTX.apps.get(('anglebase', key))
            if c0 is None:
                c0 = k
                poly.CTX.apps[('anglebase', key)] = k
            E.anglebase[key] = c0
        q = k / c0
        if q.denominator == 1 and 1 <= q <= 8:
            mult = int(q)
        else:
            c0, mult = k, 1
    else:
        c0, mult = Fraction(1), 1
    arg = base.mul(rv(c0))
    ak = ratkey(arg)

    def mks(g):
        if arg.isconst():
            bounds(g, mpmath.sin(mpf(arg.value())))
    gs = gen_for(E, 'sin', ak, mks)

    def mkc(g):
        g.square = poly.ONE.add(poly.pvar(gs).mul(poly.pvar(gs)), -1)
        g.facts.append(g.z * g.z + gs.z * gs.z == 1)
        gs.facts.append(g.z * g.z + gs.z * gs.z == 1)
        if arg.isconst():
            bounds(g, mpmath.cos(mpf(arg.value())))
    gc = gen_for(E, 'cos', ak, mkc)
    s1, c1 = Rat(poly.pvar(gs)), Rat(poly.pvar(gc))
    s, c = s1, c1
    for _ in range(mult - 1):
        s, c = s.mul(c1).add(c.mul(s1)), c.mul(c1).add(s.mul(s1), -1)
    return s, c


def r_asinh(E, x):
    if x.iszero():
        return rv(0)
    a = poly.CTX.apps.get(('asinh_of', ratkey(x)))
    if a is not None:
        return a
    q = exact_sqrt(E, x.mul(x).add(rv(1)))
    if q is not None:
        return r_log(E, x.add(q))

    def mk(g):
        pass
    g = gen_for(E, 'asinh', ratkey(x), mk)
    if not g.facts:
        g.facts.append(E.rcmp_pure('gt', x, rv(0)) == (g.z > 0))
    return Rat(poly.pvar(g))


def r_acosh(E, x):
    a = poly.CTX.apps.get(('acosh_of', ratkey(x)))
    if a is not None:
        return r_abs(E, a)

    def mk(g):
        g.facts.append(g.z >= 0)
    if not x.isconst() and not E.decide(E.rcmp('ge', x, rv(1))):
        return S.NONFIN
    q = exact_sqrt(E, x.mul(x).add(rv(-1)))
    if q is not None:
        return r_log(E, x.add(q))
    g = gen_for(E, 'acosh', ratkey(x), mk)
    if len(g.facts) == 1:
        g.facts.append(E.rcmp_pure('gt', x, rv(1)) == (g.z > 0))
    return Rat(poly.pvar(g))


def hyper(E, x):
    """(sinh x, cosh x)"""
    if x.iszero():
        return rv(0), rv(1)
    s = single(x)
    if s is not None:
        k, g = s
        a = app_of(g, 'log')
        if a is not None and k.denominator == 1 and abs(k) <= 8:
            t = ipow(E, unkey(a), int(k))
            i = E.rdiv(rv(1), t)
            return t.add(i, -1).mul(rv(Fraction(1, 2))), t.add(i).mul(rv(Fraction(1, 2)))
        a = app_of(g, 'asinh')
        if a is not None and k.numerator == 1 and k > 0:
            n = k.denominator
            t = unkey(a)
            if n == 1:
                c = r_sqrt(E, t.mul(t).add(rv(1)))
                return t, c

            gs = gen_for(E, 'sinhN', (n, a), lambda g: None)

            def mkc(g):
                g.square = poly.ONE.add(poly.pvar(gs).mul(poly.pvar(gs)))
                g.facts.append(z3.And(g.z >= 1, g.z * g.z == 1 + gs.z * gs.z))
                gs.facts.append(z3.And(g.z >= 1, g.z * g.z == 1 + gs.z * gs.z))
            gc = gen_for(E, 'coshN', (n, a), mkc)
            if len(gs.facts) == 1:
                s1, c1 = Rat(poly.pvar(gs)), Rat(poly.pvar(gc))
                ss, cc = s1, c1
                for _ in range(n - 1):
                    ss, cc = ss.mul(c1).add(cc.mul(s1)), cc.mul(c1).add(ss.mul(s1))
                gs.facts.append(E.rcmp_pure('gt', t, rv(0)) == (gs.z > 0))
                gs.facts.append(E.rcmp_pure('eq', ss, t))
            return Rat(poly.pvar(gs)), Rat(poly.pvar(gc))
    if neg_lead(x):
        s, c = hyper(E, x.neg())
        return s.neg(), c
    k = Fraction(x.n.t[max(x.n.t)]) if not x.isconst() else Fraction(1)
    base = x.mul(rv(1 / k))
    c0 = poly.CTX.apps.setdefault(('hyperbase', ratkey(base)), k)
    mult = 1
    arg = x
    if (k / c0).denominator == 1 and 1 <= k / c0 <= 8:
        mult = int(k / c0)
        arg = base.mul(rv(c0))
    ak = ratkey(arg)
    gs = gen_for(E, 'sinh', ak, lambda g: None)

    def mkc(g):
        g.square = poly.ONE.add(poly.pvar(gs).mul(poly.pvar(gs)))
        g.facts.append(z3.And(g.z >= 1, g.z * g.z == 1 + gs.z * gs.z))
        gs.facts.append(z3.And(g.z >= 1, g.z * g.z == 1 + gs.z * gs.z))
    gc = gen_for(E, 'cosh', ak, mkc)
    if len(gs.facts) == 1:
        gs.facts.append(E.rcmp_pure('gt', arg, rv(0)) == (gs.z > 0))
        gs.facts.append(E.rcmp_pure('eq', arg, rv(0)) == (gs.z == 0))
    s1, c1 = Rat(poly.pvar(gs)), Rat(poly.pvar(gc))
    s, c = s1, c1
    for _ in range(mult - 1):
        s, c = s.mul(c1).add(c.mul(s1)), c.mul(c1).add(s.mul(s1))
    poly.CTX.apps[('asinh_of', ratkey(s))] = x
    poly.CTX.apps[('acosh_of', ratkey(c))] = x
    # cosh increases with the magnitude of its argument
    seen = poly.CTX.apps.setdefault(('mono', 'cosh'), [])
    if not x.isconst() and len(seen) < 4 and not any(ratkey(x) == ratkey(y) for y, _ in seen):
        for y, cy in seen:
            pos = z3.And(E.rcmp_pure('ge', x, rv(0)), E.rcmp_pure('ge', y, rv(0)))
            gc.facts.append(z3.Implies(pos, E.rcmp_pure('lt', x, y) == E.rcmp_pure('lt', c, cy)))
        seen.append((x, c))
    return s, c


def r_ceil(E, x, fn='ceil'):
    if x.isconst():
        return rv(math.ceil(x.value()) if fn == 'ceil' else math.floor(x.value()))
    lo, hi = E.o.get('minn', 1), E.o['maxn']
    for k in range(lo, hi + 1):
        if fn == 'ceil':
            # k-1 < x <= k
            if k == lo and not E.decide(E.rcmp('gt', x, rv(k - 1))):
                raise S.PathEnd()
            if E.decide(E.rcmp('le', x, rv(k))):
                return rv(k)
        else:
            if k == lo and not E.decide(E.rcmp('ge', x, rv(k))):
                raise S.PathEnd()
            if E.decide(E.rcmp('lt', x, rv(k + 1))):
                return rv(k)
    E.stats.sites['bound: rounding beyond %d' % hi] = 1
    raise S.PathEnd()


def fresh(E, tag):
    n = E.counters.get(('fresh', tag), 0)
    E.counters[('fresh', tag)] = n + 1
    return Rat(poly.pvar(poly.CTX.gen('%s?%d' % (tag, n))))


def round32(E, v):
    """a double made a float: anything within the relative error of the format"""
    E.rounded = E.stats.rounded = True

    def mk(g):
        r = Rat(poly.pvar(g))
        d = r.add(v.neg())
        g.facts.append(E.rcmp_pure('le', d.mul(d), v.mul(v).mul(rv(Fraction(1, 1 << 48)))))
    if len(v.n.t) == 1 and v.isconst() is False:
        for (fn, key), g in poly.CTX.apps.items():
            if fn == 'round32' and ratkey(Rat(poly.pvar(g))) == ratkey(v):
                return v
    g = gen_for(E, 'round32', ratkey(v), mk)
    return Rat(poly.pvar(g))


def int_real(E, v, w, signed):
    """symbolic integer to real: an input generator tied to the bit-vector (only when the whole run is real-valued)"""
    if not E.o.get('int_real'):
        return None
    z = z3.BV2Int(v, signed)
    g = gen_for(E, 'int', v.sexpr(), lambda g: g.facts.append(g.z == z3.ToReal(z)))
    return Rat(poly.pvar(g))


def real_int(E, v, w, signed):
    lo, hi = E.o.get('imin', -64), E.o.get('imax', 64)
    # truncation toward zero, completely enumerated within the stated bound
    if E.decide(E.rcmp('ge', v, rv(0))):
        for k in range(0, hi + 1):
            if E.decide(E.rcmp('lt', v, rv(k + 1))):
                return S.mask(k, w)
    else:
        for k in range(0, lo - 1, -1):
            if E.decide(E.rcmp('gt', v, rv(k - 1))):
                return S.mask(k, w)
    E.stats.sites['bound: real to integer conversion beyond +-%d' % hi] = 1
    raise S.PathEnd()


def L(f1, ieee=None):
    """libm function of one argument"""
    def h(E, a, rt, at):
        x = a[0]
        if x is S.UNDEF:
            return S.UNDEF
        if E.real:
            if x is S.NONFIN:
                return S.NONFIN
            return f1(E, x)
        if ieee is None:
            raise S.EngineError('libm function in IEEE mode')
        return z3.simplify(ieee(x))
    return h


def h_pow(E, a, rt, at):
    if a[0] is S.UNDEF or a[1] is S.UNDEF:
        return S.UNDEF
    if S.NONFIN in (a[0], a[1]):
        return S.NONFIN
    if not E.real:
        raise S.EngineError('pow in IEEE mode')
    return r_pow(E, a[0], a[1])


@nf
def h_muldc3(E, a, rt, at):
    x, y, u, v = a
    return [x.mul(u).add(y.mul(v), -1), x.mul(v).add(y.mul(u))]


@nf
def h_divdc3(E, a, rt, at):
    x, y, u, v = a
    d = u.mul(u).add(v.mul(v))
    re = E.rdiv(x.mul(u).add(y.mul(v)), d)
    if re is S.NONFIN:
        return [S.NONFIN, S.NONFIN]
    return [re, E.rdiv(y.mul(u).add(x.mul(v), -1), d)]


def hyp(E, x, y):
    if y.iszero():
        return r_abs(E, x)
    if x.iszero():
        return r_abs(E, y)
    return r_sqrt(E, x.mul(x).add(y.mul(y)))


@nf
def h_cabs(E, a, rt, at):
    return hyp(E, a[0], a[1])


@nf
def h_csqrt(E, a, rt, at):
    x, y = a
    if y.iszero():
        if E.decide(S.zbool(E.rcmp('ge', x, rv(0)))):
            return [r_sqrt(E, x), rv(0)]
        return [rv(0), r_sqrt(E, x.neg())]
    m = hyp(E, x, y)
    p = r_sqrt(E, m.add(x).mul(rv(Fraction(1, 2))))
    q = r_sqrt(E, m.add(x, -1).mul(rv(Fraction(1, 2))))
    if not E.decide(S.zbool(E.rcmp('ge', y, rv(0)))):
        q = q.neg()
    return [p, q]


@nf
def h_cacosh(E, a, rt, at):
    x, y = a
    if y.iszero():
        if E.decide(S.zbool(E.rcmp('ge', x, rv(1)))):
            return [r_acosh(E, x), rv(0)]
        if E.decide(S.zbool(E.rcmp('ge', x, rv(-1)))):
            return [rv(0), Rat(poly.pvar(gen_for(E, 'acos', ratkey(x), lambda g: None)))]
    return h_cfresh(E, a, rt, at)


@nf
def h_ccosh(E, a, rt, at):
    sx, cx = hyper(E, a[0])
    sy, cy = trig(E, a[1])
    return [cx.mul(cy), sx.mul(sy)]


@nf
def h_cfresh(E, a, rt, at):
    k = tuple(ratkey(x) for x in a)
    g1 = gen_for(E, 'cre', k, lambda g: None)
    g2 = gen_for(E, 'cim', k, lambda g: None)
    return [Rat(poly.pvar(g1)), Rat(poly.pvar(g2))]


def h_atan2(E, a, rt, at):
    g = gen_for(E, 'atan2', (ratkey(a[0]), ratkey(a[1])), lambda g: None)
    return Rat(poly.pvar(g))


def h_fabs(E, a, rt, at):
    x = a[0]
    if x is S.UNDEF or x is S.NONFIN:
        return x
    if E.real:
        return r_abs(E, x)
    return z3.simplify(z3.fpAbs(x))


def h_fmuladd(E, a, rt, at):
    return E.fbin('fadd', None, E.fbin('fmul', None, a[0], a[1]), a[2])


def h_fma(E, a, rt, at):
    if E.real:
        return h_fmuladd(E, a, rt, at)
    return z3.simplify(z3.fpFMA(z3.RNE(), *a))


def h_fmaxmin(big):
    def h(E, a, rt, at):
        if S.UNDEF in (a[0], a[1]):
            return S.UNDEF
        if not E.real:
            return z3.simplify((z3.fpMax if big else z3.fpMin)(a[0], a[1]))
        if S.NONFIN in (a[0], a[1]):
            return S.NONFIN
        c = E.rcmp('ge' if big else 'le', a[0], a[1])
        return a[0] if E.decide(c) else a[1]
    return h


def h_copysign(E, a, rt, at):
    if S.UNDEF in (a[0], a[1]):
        return S.UNDEF
    if not E.real:
        w = a[0].sort().ebits() + a[0].sort().sbits()
        return z3.simplify(z3.If(z3.Extract(w - 1, w - 1, z3.fpToIEEEBV(a[1])) == 1, z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0])))
    if S.NONFIN in (a[0], a[1]):
        return S.NONFIN
    r = r_abs(E, a[0])
    return r if E.decide(E.rcmp('ge', a[1], rv(0))) else r.neg()


def r_cbrt(E, x):
    if x.iszero():
        return x

    def mk(g):
        z = x.n.z3() / x.den().z3() if x.d else x.n.z3()
        g.facts.append(g.z * g.z * g.z == z)
    return Rat(poly.pvar(gen_for(E, 'cbrt', ratkey(x), mk)))


def r_tanh(E, x):
    s, c = hyper(E, x)
    return E.rdiv(s, c)


def r_expm1(E, x):
    return r_exp(E, x).add(rv(-1))


def r_log1p(E, x):
    return r_log(E, x.add(rv(1)))


def r_exp2(E, x):
    return r_pow(E, rv(2), x)


def r_exp10(E, x):
    return r_pow(E, rv(10), x)


def h_ieee_round(rm):
    def h(E, a, rt, at):
        if E.real:
            raise S.EngineError('rounding')
        return z3.fpRoundToIntegral(rm(), a[0])
    return h


# ------------------------------------------------------------------------------- libc / runtime
def h_memcpy(E, a, rt, at):
    n = E.concretize(a[2], at[2][1])
    E.copy(a[0], a[1], n)
    return a[0]


def h_memset(E, a, rt, at):
    n = E.concretize(a[2], at[2][1])
    if n == 0:
        return a[0]
    o, off = E.access(a[0], n, 'write')
    b = a[1]
    if not isinstance(b, int):
        b = S.simp(z3.Extract(7, 0, b)) if b.size() > 8 else b
    else:
        b &= 255
    for c in list(o.cells):
        s = o.cells[c][0]
        if c < off + n and c + s > off and not (c >= off and c + s <= off + n):
            E.split(o, c)
    for c in [c for c in o.cells if off <= c < off + n]:
        del o.cells[c]
    for i in range(n):
        o.cells[off + i] = (1, b)
    return a[0]


def byte(E, p, i):
    v = E.load(S.Ptr(p.obj, p.off + i), ('i', 8))
    if v is S.UNDEF:
        raise S.Candidate('uninit', 'an uninitialised character is compared', E.where())
    return S.bv(v, 8)


def h_memchr(E, a, rt, at):
    n = E.concretize(a[2], at[2][1])
    c = S.bv(a[1], at[1][1])
    c = z3.Extract(7, 0, c) if c.size() > 8 else c
    for i in range(n):
        if E.decide(S.simp(byte(E, a[0], i) == c)):
            return S.Ptr(a[0].obj, a[0].off + i)
    return S.Ptr(None, 0)


def h_memcmp(E, a, rt, at):
    n = E.concretize(a[2], at[2][1])
    for i in range(n):
        x, y = byte(E, a[0], i), byte(E, a[1], i)
        if not E.decide(S.simp(x == y)):
            return (1 << rt[1]) - 1 if E.decide(S.simp(z3.ULT(x, y))) else 1
    return 0


def h_strlen(E, a, rt, at):
    i = 0
    while not E.decide(S.simp(byte(E, a[0], i) == 0)):
        i += 1
    return i


def h_new(E, a, rt, at):
    n = E.concretize(a[0], at[0][1])
    if n > 1 << 16:
        raise S.EngineError('allocation of %d bytes' % n)
    o = E.new_obj('heap%d' % len(E.heap), n)
    o.heap = True
    E.heap.append(o)
    return S.Ptr(o, 0)


def h_delete(E, a, rt, at):
    p = a[0]
    if isinstance(p, S.Ptr) and p.obj is None:
        return None
    if p is S.UNDEF or not p.obj.heap or p.off != 0:
        raise S.Candidate('memory', 'delete of a pointer that was not allocated', E.where())
    if not p.obj.alive:
        raise S.Candidate('memory', 'double delete', E.where())
    p.obj.alive = False
    return None


def h_guard(E, a, rt, at):
    """the guarded static variable is initialised now"""
    E.store(a[0], ('i', 8), 1)


def h_nop(E, a, rt, at):
    return 0 if rt and rt[0] == 'i' else None


def h_expect(E, a, rt, at):
    return a[0]


def h_throw(E, a, rt, at):
    raise S.Candidate('throw', 'exception thrown', E.where())


def h_assertfail(E, a, rt, at):
    if 'expect stop' in E.notes:            # the harness misuses the interface on purpose: this is the required outcome
        E.stats.checks['stopped by an assertion'] = E.stats.checks.get('stopped by an assertion', 0) + 1
        raise S.Stopped()
    raise S.Candidate('assert', 'library assertion: ' + E.cstr(a[0]), E.where())


def h_abort(E, a, rt, at):
    raise S.Candidate('abort', 'abort called', E.where())


def h_iabs(E, a, rt, at):
    w = at[0][1]
    v = a[0]
    if v is S.UNDEF:
        return v
    if isinstance(v, int):
        return S.mask(abs(S.sgn(v, w)), w)
    return S.simp(z3.If(v < 0, -v, v))


def h_minmax(kind):
    def h(E, a, rt, at):
        w = at[0][1]
        A, B = S.bv(a[0], w), S.bv(a[1], w)
        c = {'smax': A > B, 'smin': A < B, 'umax': z3.UGT(A, B), 'umin': z3.ULT(A, B)}[kind]
        return S.simp(z3.If(c, A, B))
    return h


def h_isconst(E, a, rt, at):
    return 0


def h_ovf(op):
    def h(E, a, rt, at):
        w = at[0][1]
        A, B = S.bv(a[0], w), S.bv(a[1], w)
        ext = z3.SignExt if op[0] == 's' else z3.ZeroExt
        f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op[1:]]
        wide = f(ext(w, A), ext(w, B))
        r = f(A, B)
        return [S.simp(r), S.simp(ext(w, r) != wide)]
    return h


def table(E):
    t = dict(
        vp_sym_int=vp_sym_int, vp_sym_small=vp_sym_small, vp_sym_real=vp_sym_real, vp_sym_f32=vp_sym_f32, vp_choose=vp_choose,
        vp_assume=vp_assume, vp_check=vp_check, vp_eq=vp_eq, vp_le=vp_le, vp_note=vp_note, vp_reach=vp_reach,
        vp_fail=vp_fail, vp_end=vp_end, vp_is_engine=vp_is_engine, vp_pin=vp_pin,
        pow=h_pow, fabs=h_fabs, fma=h_fma, fmax=h_fmaxmin(True), fmin=h_fmaxmin(False), copysign=h_copysign, atan2=h_atan2,
        __muldc3=h_muldc3, __divdc3=h_divdc3, __mulsc3=h_muldc3, __divsc3=h_divdc3,
        cabs=h_cabs, hypot=h_cabs, csqrt=h_csqrt, cacosh=h_cacosh, ccosh=h_ccosh,
        memchr=h_memchr, memcmp=h_memcmp, bcmp=h_memcmp, strlen=h_strlen,
        memcpy=h_memcpy, memmove=h_memcpy, memset=h_memset,
        _Znwm=h_new, _Znam=h_new, _ZdlPv=h_delete, _ZdlPvm=h_delete, _ZdaPv=h_delete, _ZdaPvm=h_delete,
        __assert_fail=h_assertfail, abort=h_abort, abs=h_iabs, labs=h_iabs, llabs=h_iabs,
        __cxa_atexit=h_nop, __cxa_guard_acquire=lambda E, a, rt, at: 1, __cxa_guard_release=h_guard,
    )
    one = dict(sqrt=(r_sqrt, lambda x: z3.fpSqrt(z3.RNE(), x)), exp=(r_exp, None), log=(r_log, None),
               log10=(r_log10, None), log2=(r_log2, None), tan=(r_tan, None), atan=(r_atan, None),
               sin=(lambda E, x: trig(E, x)[0], None), cos=(lambda E, x: trig(E, x)[1], None),
               sinh=(lambda E, x: hyper(E, x)[0], None), cosh=(lambda E, x: hyper(E, x)[1], None),
               asinh=(r_asinh, None), cbrt=(r_cbrt, None), tanh=(r_tanh, None), expm1=(r_expm1, None),
               log1p=(r_log1p, None), exp2=(r_exp2, None), exp10=(r_exp10, None), acosh=(r_acosh, None), ceil=(r_ceil, lambda x: z3.fpRoundToIntegral(z3.RTP(), x)),
               floor=(lambda E, x: r_ceil(E, x, 'floor'), lambda x: z3.fpRoundToIntegral(z3.RTN(), x)),
               round=(None, lambda x: z3.fpRoundToIntegral(z3.RNA(), x)),
               trunc=(None, lambda x: z3.fpRoundToIntegral(z3.RTZ(), x)))
    for n, (f, i) in one.items():
        t[n] = L(f, i)
    for n in list(one) + ['pow', 'fabs', 'cabs', 'hypot', 'csqrt', 'atan2', 'fma', 'fmax', 'fmin', 'copysign']:
        t[n + 'f'] = t[n]
    for n in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'pow', 'fabs', 'ceil', 'floor', 'round', 'trunc'):
        for s in ('f32', 'f64'):
            t['llvm.%s.%s' % (n, s)] = t[n]
    for s in ('f32', 'f64'):
        t['llvm.fmuladd.' + s] = h_fmuladd
        t['llvm.fma.' + s] = h_fma
        t['llvm.maxnum.' + s] = t['fmax']
        t['llvm.minnum.' + s] = t['fmin']
        t['llvm.copysign.' + s] = h_copysign
        t['llvm.exp2.' + s] = t['exp2']
        t['llvm.log2.' + s] = t['log2']
    import mcu
    import text
    t.update(mcu.table(E))
    t.update(text.table(E))
    return t


PATTERNS = [
    (re.compile(r'llvm\.mem(cpy|move)\.'), h_memcpy),
    (re.compile(r'llvm\.memset\.'), h_memset),
    (re.compile(r'llvm\.(lifetime|dbg|experimental\.noalias|assume|donothing|stacksave|stackrestore|va_)'), h_nop),
    (re.compile(r'llvm\.expect\.'), h_expect),
    (re.compile(r'llvm\.is\.constant\.'), h_isconst),
    (re.compile(r'llvm\.abs\.'), h_iabs),
    (re.compile(r'llvm\.smax\.'), h_minmax('smax')),
    (re.compile(r'llvm\.smin\.'), h_minmax('smin')),
    (re.compile(r'llvm\.umax\.'), h_minmax('umax')),
    (re.compile(r'llvm\.umin\.'), h_minmax('umin')),
    (re.compile(r'llvm\.trap'), h_abort),
    (re.compile(r'_ZSt\d+__throw_'), h_throw),
    (re.compile(r'__cxa_throw|__cxa_allocate'), h_throw),
    (re.compile(r'_ZNSt8ios_base4Init'), h_nop),
    (re.compile(r'_ZSt9terminatev'), h_abort),
] + [(re.compile(r'llvm\.%s\.with\.overflow\.' % op), h_ovf(op)) for op in
     ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul')]


def match(E, name):
    f = E.m.funcs.get(name)
    if f is not None and f.defined:
        return None
    for p, h in PATTERNS:
        if p.match(name):
            E.intr[name] = h
            return h
    return None


def asm(E, text, cons, args, rt):
    import mcu
    return mcu.asm(E, text, cons, args, rt)


def io_load(E, p, n, t, vol):
    import mcu
    return mcu.io_load(E, p, n, t, vol)


def io_store(E, p, n, t, v, vol):
    import mcu
    return mcu.io_store(E, p, n, t, v, vol)


def shared_load(E, o, off, n, t):
    import mcu
    return mcu.shared_load(E, o, off, n, t)


def shared_store(E, o, off, n, t, v):
    import mcu
    return mcu.shared_store(E, o, off, n, t, v)
