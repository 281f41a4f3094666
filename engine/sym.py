"""Symbolic executor for LLVM IR (path-wise, by re-execution along decision prefixes).

Every feasible path of a harness function is executed; branch feasibility and every assertion are decided by an
SMT solver over the symbolic inputs.  Floats are either exact reals (mode 'real', rational-function normal form,
see poly.py) or IEEE values (mode 'ieee', z3 floating-point theory).
"""
import os
import random
import re
import struct
import subprocess
import time
from fractions import Fraction
import gc
import threading
import z3
import llir
import poly
import signs
from poly import Rat, Poly

PI_D = Fraction(3.141592653589793)


def ipoly(e, depth=0):
    """the signed value of bit-vector e as an exact integer polynomial over atoms -> (poly, lo, hi)
    poly: {tuple of (id, unsigned?) : coefficient}; every step is checked not to wrap, else e itself is the atom"""
    if not IP['wide']:
        return _ipoly(e, depth)
    m = _imemo.get(e.get_id())
    if m is None:
        m = _imemo[e.get_id()] = e, _ipoly(e, depth)
    return m[1]


# the bounded-integer arithmetic of `@opt intpoly=1`: how many terms a polynomial may have, how deep terms are followed
IP = dict(wide=False, terms=8, depth=40)
_imemo = {}
_iranges = {}       # input -> (lo, hi), as assumed on the path


def int_range(name, lo, hi):
    if _iranges.get(name) != (lo, hi):
        _iranges[name] = lo, hi
        _imemo.clear()


def _ipoly(e, depth):
    w = e.size()
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_bv_value(e):
        v = e.as_signed_long()
        return ({(): v} if v else {}), v, v
    r = None
    if depth < IP['depth']:
        if k == z3.Z3_OP_SIGN_EXT:
            r = ipoly(e.arg(0), depth + 1)
        elif k == z3.Z3_OP_ZERO_EXT:
            r = _unsigned(e.arg(0), depth + 1)
        elif k == z3.Z3_OP_CONCAT:
            xs = [e.arg(i) for i in range(e.num_args())]
            while len(xs) > 1 and _is_sign_of(xs[0], xs[1]):
                xs.pop(0)
            while IP['wide'] and len(xs) > 1 and _continues(xs[-2], xs[-1]):
                x = xs[-2]
                xs[-2:] = [z3.Extract(x.params()[0], 0, x.arg(0))]
            while len(xs) > 1 and _is_sign_of(xs[0], xs[1]):
                xs.pop(0)
            n = len(xs)
            tail = xs[-1]
            head = None if n == 1 else xs[0] if n == 2 else z3.Concat(*xs[:-1])
            if head is None:
                r = ipoly(tail, depth + 1)
            elif z3.is_bv_value(head) and head.as_long() == 0:
                r = _unsigned(tail, depth + 1)
            else:
                p1, l1, h1 = ipoly(head, depth + 1)
                m = 1 << tail.size()
                p2, l2, h2 = _unsigned(tail, depth + 1)
                r = _padd({t: c * m for t, c in p1.items()}, p2), l1 * m + l2, h1 * m + h2
        elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            r = ({}, 0, 0)
            for i in range(e.num_args()):
                p, l, h = ipoly(e.arg(i), depth + 1)
                if k == z3.Z3_OP_BSUB and i:
                    p, l, h = {t: -c for t, c in p.items()}, -h, -l
                r = _padd(r[0], p), r[1] + l, r[2] + h
        elif k == z3.Z3_OP_BNEG:
            p, l, h = ipoly(e.arg(0), depth + 1)
            r = {t: -c for t, c in p.items()}, -h, -l
        elif k == z3.Z3_OP_BNOT and IP['wide']:
            p, l, h = ipoly(e.arg(0), depth + 1)
            r = _padd({t: -c for t, c in p.items()}, {(): -1}), -h - 1, -l - 1
        elif k == z3.Z3_OP_BMUL:
            r = ({(): 1}, 1, 1)
            for i in range(e.num_args()):
                p, l, h = ipoly(e.arg(i), depth + 1)
                q = {}
                for t1, c1 in r[0].items():
                    for t2, c2 in p.items():
                        t = tuple(sorted(t1 + t2))
                        q[t] = q.get(t, 0) + c1 * c2
                xs = [r[1] * l, r[1] * h, r[2] * l, r[2] * h]
                r = {t: c for t, c in q.items() if c}, min(xs), max(xs)
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            m = 1 << e.arg(1).as_long()
            p, l, h = ipoly(e.arg(0), depth + 1)
            r = {t: c * m for t, c in p.items()}, l * m, h * m
        elif k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
            r = ipoly(e.arg(0), depth + 1)
        elif k == z3.Z3_OP_EXTRACT and IP['wide']:
            r = _shifted(e.arg(0), e.params()[1], depth)
        elif k == z3.Z3_OP_BASHR and z3.is_bv_value(e.arg(1)) and IP['wide']:
            r = _shifted(e.arg(0), e.arg(1).as_long(), depth)
        elif k == z3.Z3_OP_UNINTERPRETED and IP['wide'] and e.num_args() == 0 and str(e.decl()) in _iranges:
            _ipoly_atoms[e.get_id()] = e
            return ({((e.get_id(), False),): 1},) + _iranges[str(e.decl())]
    if r is not None and IP['wide']:
        r = _tight(*r)
    if r is not None and lo <= r[1] and r[2] <= hi and len(r[0]) <= IP['terms']:
        return r
    _ipoly_atoms[e.get_id()] = e
    return {((e.get_id(), False),): 1}, lo, hi


_ipoly_atoms = {}


def _tight(p, lo, hi):
    """the bounds of a polynomial, also from those of its terms"""
    if len(p) > 500:
        return p, lo, hi
    l = h = 0
    for t, c in p.items():
        a = b = c
        i = 0
        while i < len(t):
            n = 1
            while i + n < len(t) and t[i + n] == t[i]:
                n += 1
            e = _ipoly_atoms[t[i][0]]
            w = e.size()
            u, v = (0, (1 << w) - 1) if t[i][1] else _iranges.get(str(e.decl()) if e.num_args() == 0 else None,
                                                                 (-(1 << (w - 1)), (1 << (w - 1)) - 1))
            xs = u ** n, v ** n
            u, v = (0 if n % 2 == 0 and u <= 0 <= v else min(xs)), max(xs)
            xs = a * u, a * v, b * u, b * v
            a, b = min(xs), max(xs)
            i += n
        l += a
        h += b
    return p, max(l, lo), min(h, hi)


def _continues(x, y):
    """x and y are the upper and the lower part of one value that was taken apart, y perhaps rewritten since"""
    if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == y.size()):
        return False
    return z3.simplify(z3.Extract(y.size() - 1, 0, x.arg(0))).eq(y)


def _shifted(e, n, depth):
    """the value of e shifted right by n when that loses nothing but part of a constant"""
    p, l, h = ipoly(e, depth + 1)
    m = 1 << n
    if any(c % m for t, c in p.items() if t):
        return None
    return {t: c // m for t, c in p.items() if c // m}, l // m, h // m


def _iterm(p):
    """the polynomial over integer variables, one per atom"""
    return z3.Sum([z3.IntVal(0)] + [z3.Product([z3.IntVal(c)] + [z3.Int('i%d%s' % (a, 'u' if u else '')) for a, u in t])
                                    for t, c in p.items()])


def icompare(pr, a, b, eng=None):
    """a signed comparison or (in)equality of two bit-vectors decided on their exact integer values, or None"""
    pa, la, ha = ipoly(a)
    pb, lb, hb = ipoly(b)
    d = _padd(pa, {t: -c for t, c in pb.items()})
    if not set(d) - {()}:
        k = d.get((), 0)
        if eng is not None and pa and len(pa) + len(pb) <= 600:     # the solver confirms it over the integers
            if eng.solve([_iterm(pa) - _iterm(pb) != k], 5000)[0] == z3.sat:
                raise EngineError('normal form of integers refuted by the solver')
        return int({'eq': k == 0, 'ne': k != 0, 'slt': k < 0, 'sle': k <= 0, 'sgt': k > 0, 'sge': k >= 0}[pr])
    if ha < lb:
        return int(pr in ('ne', 'slt', 'sle'))
    if la > hb:
        return int(pr in ('ne', 'sgt', 'sge'))
    if pr == 'sle' and ha <= lb or pr == 'sge' and la >= hb:
        return 1
    if pr == 'slt' and la >= hb or pr == 'sgt' and ha <= lb:
        return 0
    return None


def _is_sign_of(s, x):
    """1-bit s is the top bit of x"""
    if s.size() != 1:
        return False
    if s.eq(x):
        return True
    if not (z3.is_app(s) and s.decl().kind() == z3.Z3_OP_EXTRACT):
        return False
    h, y = s.params()[0], s.arg(0)
    if x.eq(y):
        return h == y.size() - 1
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.arg(0).eq(y) and x.params()[0] == h


def _unsigned(e, depth):
    p, l, h = ipoly(e, depth)
    if l >= 0:
        return p, l, h
    _ipoly_atoms[e.get_id()] = e
    return {((e.get_id(), True),): 1}, 0, (1 << e.size()) - 1


def _padd(a, b):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + c
        if not r[t]:
            del r[t]
    return r


def ibuild(p, W):
    """the polynomial as a W-bit term, in canonical order"""
    tot = None
    for t in sorted(p):
        x = z3.BitVecVal(p[t] & ((1 << W) - 1), W)
        for aid, uns in t:
            a = _ipoly_atoms[aid]
            n = a.size()
            a = a if n == W else z3.Extract(W - 1, 0, a) if n > W else (
                z3.ZeroExt(W - n, a) if uns else z3.SignExt(W - n, a))
            x = x * a
        tot = x if tot is None else tot + x
    return z3.BitVecVal(0, W) if tot is None else tot


def canon_div(op, A, B, w):
    """signed division at the smallest width that holds both operands, so that the same division written with
    different promotions becomes the same term"""
    A, B = z3.simplify(A), z3.simplify(B)
    pa, la, ha = ipoly(A)
    pb, lb, hb = ipoly(B)
    W = 2
    while min(la, lb) < -(1 << (W - 1)) or max(ha, hb) >= (1 << (W - 1)):
        W += 1
    W = min(W + 1, w)
    a, b = z3.simplify(ibuild(pa, W)), z3.simplify(ibuild(pb, W))
    r = a / b if op == 'sdiv' else z3.SRem(a, b)
    return r if W == w else z3.SignExt(w - W, r)


def closed_vars(c):
    """variables of c and of everything known about the generators in it"""
    vs = zvars(c)
    gens = poly.CTX.byname
    todo = [n for n in vs if n in gens and gens[n].facts]
    if not todo:
        return vs
    vs = set(vs)
    seen = set(todo)
    while todo:
        for f in gens[todo.pop()].facts:
            for n in zvars(f):
                vs.add(n)
                if n not in seen:
                    seen.add(n)
                    if n in gens and gens[n].facts:
                        todo.append(n)
    return vs


TRACE = bool(os.environ.get('VP_TRACE'))

class Guard:
    """interrupts z3 after a while; touches no z3 object but the context, which allows it"""

    def __init__(self):
        self.until = None
        self.thread = None
        self.lock = threading.Lock()

    def arm(self, sec):
        with self.lock:
            self.until = time.time() + sec
        if self.thread is None:
            gc.disable()            # no collection of z3 objects from the other thread
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()

    def disarm(self):
        with self.lock:
            self.until = None

    def run(self):
        ref = z3.main_ctx().ref()
        stop = z3.z3core.Z3_interrupt
        while True:
            time.sleep(0.25)
            with self.lock:
                if self.until is not None and time.time() > self.until:
                    stop(ref)


_guard = Guard()


class EngineError(Exception):
    """the engine cannot encode this (an error of the check, never a verdict)"""


class Stopped(Exception):
    """an expected assertion stopped the program: the path is complete"""


class PathEnd(Exception):
    pass


class Candidate(Exception):
    """a feasible violation; carries the model"""

    def __init__(self, kind, msg, where=''):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.where = where


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class _NonFinite:
    def __repr__(self):
        return 'NONFINITE'


NONFIN = _NonFinite()      # result of a division by zero in real mode


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj.name if self.obj else None, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Obj:
    __slots__ = ('name', 'size', 'cells', 'base', 'alive', 'const', 'mmio', 'heap')

    def __init__(self, name, size, base):
        self.name = name
        self.size = size
        self.base = base
        self.cells = {}       # offset -> (size, value); absent bytes are uninitialised
        self.alive = True
        self.const = False
        self.mmio = False
        self.heap = False


class FloatBits:
    """integer view of a float value in real mode"""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v = v
        self.w = w


class Blob:
    """integer loaded from several heterogeneous cells: list of (offset, size, value)"""
    __slots__ = ('cells', 'size')

    def __init__(self, cells, size):
        self.cells = cells
        self.size = size


NULL = Ptr(None, 0)


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def simp(e):
    e = z3.simplify(e)
    return unwrap(e)


def unwrap(e):
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def zbool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v


def boolish(v):
    """the condition behind a 0/1 value"""
    if isinstance(v, int):
        return z3.BoolVal(bool(v)) if v in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, x, y = v.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            x, y = x.as_long(), y.as_long()
            if (x, y) == (1, 0):
                return c
            if (x, y) == (0, 1):
                return z3.Not(c)
    return None


def f32round(x):
    return struct.unpack('<f', struct.pack('<f', float(x)))[0]


_varcache = {}


def zvars(e):
    """names of the free constants of a z3 term"""
    k = e.get_id()
    r = _varcache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    out = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        else:
            st.extend(x.children())
    out = frozenset(out)
    _varcache[k] = (e, out)
    return out


class _NotSame(Exception):
    pass


# operations that are defined for all operands
_SHIFTS = ('shl', 'ashr', 'lshr')
_TOTAL = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr')


class Stats:
    def __init__(self):
        self.queries = 0
        self.feas = 0
        self.solver_s = 0.0
        self.trivial = 0
        self.discharged = 0
        self.paths = 0
        self.completed = 0
        self.steps = 0
        self.checks = {}
        self.funcs = set()
        self.unknown = 0
        self.sites = {}
        self.cvc5 = 0
        self.norm = 0


class Frame:
    __slots__ = ('f', 'v', 'objs', 'prev')

    def __init__(self, f):
        self.f = f
        self.v = {}
        self.objs = []
        self.prev = None


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        o = dict(mode='real', max_paths=20000, max_steps=3000000, feas_ms=3000, query_ms=60000, first_ms=5000, ident_size=400, deadline=None,
                 f32='round', maxn=6, cand_limit=6)
        o.update(opts or {})
        self.o = o
        self.real = o['mode'] == 'real'
        if o.get('intpoly'):
            IP.update(wide=True, terms=20000, depth=400)
        self.avr = mod.triple.startswith(('avr', 'msp430'))
        self.ali = 1 if mod.triple.startswith('avr') else 2 if self.avr else 16
        self.ptrw = 16 if self.avr else 64
        self.sizes = {}
        self.stats = Stats()
        self.inputs = {}
        self.cands = []
        self.candkeys = set()
        self.history = None        # state left by an earlier use of the library
        self.stateful = False
        self.libstate = {}
        self.wit = []
        self.pre = None            # inputs of the earlier use, while it is executed
        import intrinsics
        self.intr = intrinsics.table(self)
        self.intrinsics = intrinsics

    # ------------------------------------------------------------------ layout
    def rt(self, t):
        while t[0] == 'n':
            t = self.m.types[t[1]]
        return t

    def layout(self, t):
        """(size, align, field offsets)"""
        r = self.sizes.get(t)
        if r is None:
            r = self._layout(t)
            self.sizes[t] = r
        return r

    def _layout(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i':
            n = max(1, (t[1] + 7) // 8)
            p = 1
            while p < n:
                p *= 2
            return (p, min(p, self.ali), None)
        if k == 'ptr':
            return (self.ptrw // 8, min(self.ptrw // 8, self.ali), None)
        if k == 'f':
            n = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
            return (n, min(n, self.ali), None)
        if k == 'arr':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self.layout(t[2])
            return (s * t[1], s * t[1], None)
        if k == 'st':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a, _ = self.layout(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise EngineError('layout of %r' % (t,))

    def size(self, t):
        return self.layout(t)[0]

    # ------------------------------------------------------------------ exploration
    def run(self, fname):
        self.explore(fname)
        if self.stateful:
            # the code keeps state of its own (static variables): explore again from the states that earlier uses leave
            for h in self.histories(fname):
                self.history = h
                self.explore(fname)
            self.history = None
        return self

    def histories(self, fname):
        """states of the library's own variables after an earlier run with particular inputs"""
        rng = random.Random(self.o.get('seed', 1))
        given = [dict(w) for w in self.wit]
        out = []
        for k in range(40):
            if len(out) >= self.o.get('histories', 3):
                break
            self.history = None
            self._start([])
            self.pre = given.pop(0) if given else {}
            self.prerng = rng
            self.work = []
            try:
                self.call_defined(self.m.funcs[fname], [])
            except PathEnd:
                self.pre = None
                continue
            except Candidate:
                pass
            used, self.pre = self.pre, None
            gl = {n: o for n, o in self.gl.items() if self.library_state(n)}
            objs = self.objs + [o for o in gl.values() if o not in self.objs]
            out.append(dict(inputs=used, gl=gl, cells=[(o, dict(o.cells), o.alive) for o in objs], base=self.nextbase))
        self.work = []
        return out

    def library_state(self, name):
        r = self.libstate.get(name)
        if r is None:
            g = self.m.globals.get(name)
            r = False
            if g is not None and not g.const and name.startswith(('_Z', '"_Z')):
                try:
                    d = subprocess.run(['c++filt', name.strip('"')], stdout=subprocess.PIPE, text=True, timeout=30).stdout
                except Exception:
                    d = name
                r = bool(re.match(r'(guard variable for |auto |.* )?(num|dsp|mcu|core|std20)::', d)) and \
                    'initializer' not in d
            self.libstate[name] = r
        return r

    def explore(self, fname):
        self.work = [[]]
        f = self.m.funcs[fname]
        while self.work:
            if self.stats.paths >= self.o['max_paths']:
                raise EngineError('path bound %d exceeded' % self.o['max_paths'])
            prefix = self.work.pop()
            self.stats.paths += 1
            self._start(prefix)
            if self.stats.paths % 50 == 0:
                gc.collect()
            try:
                try:
                    self.call_defined(f, [])
                except Stopped:
                    pass
                self.stats.completed += 1
                self.on_complete()
            except PathEnd:
                pass
            except Candidate as c:
                self.record(c)
            except RecursionError:
                raise EngineError('recursion depth')
        return self

    def on_complete(self):
        pass

    def _start(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.pc = []           # list of (z3 constraint)
        self.pcset = set()
        self.gl = {}
        self.nextbase = 0x100 if self.avr else 0x10000
        self.objs = []
        self.steps = 0
        self.signs = {}
        self.bounds = None
        self.depth = 0
        self.hooks = {}
        self.io = None
        self.counters = {}
        self.callstack = []
        self.notes = []
        self.rounded = False
        self.inputs_on_path = {}
        self.heap = []
        self.intrinsics.start(self)
        h = self.history
        if h is not None:
            for o, cells, alive in h['cells']:
                o.cells = dict(cells)
                o.alive = alive
            self.gl = dict(h['gl'])
            self.objs = [o for o, _, _ in h['cells']]
            self.nextbase = h['base']

    def tick(self):
        self.steps += 1
        self.stats.steps += 1
        if self.steps > self.o['max_steps']:
            raise Candidate('nonterm', 'step bound %d exceeded on one path' % self.o['max_steps'])
        if (self.steps & 1023) == 0 and self.o['deadline'] and time.time() > self.o['deadline']:
            raise EngineError('time budget exceeded')

    # ------------------------------------------------------------------ solver
    def cone(self, extra):
        """constraints of the path connected to the variables of `extra`"""
        want = set()
        for e in extra:
            want |= zvars(e)
        gens = poly.CTX.byname
        rest = list(self.pc)
        out = []
        seen = set()
        changed = True
        while changed:
            changed = False
            for n in list(want):
                if n in seen:
                    continue
                seen.add(n)
                g = gens.get(n)
                if g is not None and g.facts:
                    for fct in g.facts:
                        out.append(fct)
                        vs = zvars(fct)
                        if not vs <= want:
                            want |= vs
                            changed = True
            keep = []
            for c in rest:
                vs = closed_vars(c)
                if vs & want or not vs:
                    out.append(c)
                    if not vs <= want:
                        want |= vs
                        changed = True
                else:
                    keep.append(c)
            rest = keep
        return out

    def solve(self, cons, ms, feas=False):
        if self.o['deadline'] and time.time() > self.o['deadline']:
            raise EngineError('time budget exceeded')
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*cons)
        r = self.timed(s, ms)
        if feas:
            self.stats.feas += 1
        else:
            self.stats.queries += 1
        if r == z3.unknown and not feas:
            r2 = self.second(s, cons, ms)
            if r2 is not None:
                r = r2[0]
                self.stats.solver_s += time.time() - t
                return r, r2[1]
            self.stats.unknown += 1
        self.stats.solver_s += time.time() - t
        if TRACE and time.time() - t > 0.5:
            print('SLOW %.1f %s %s' % (time.time() - t, r, self.where()[:80]), '\n   ', str(cons[-1])[:1500])
        return r, (s.model() if r == z3.sat else None)

    def timed(self, s, ms):
        """check() that also ends when z3 does not look at its own timeout"""
        _guard.arm(ms / 1000 * 1.2 + 1)
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown
        finally:
            _guard.disarm()

    def second(self, s, cons, ms):
        """other tactics, then cvc5, when z3's default gives up"""
        for tac in (('simplify', 'purify-arith', 'qfnra-nlsat') if self.real else ('simplify', 'bit-blast', 'sat'),):
            try:
                t = z3.Then(*tac)
                s2 = t.solver()
                s2.set('timeout', ms)
                s2.add(*cons)
                r = self.timed(s2, ms)
                if r != z3.unknown:
                    return r, (s2.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        import subprocess
        import tempfile
        import os
        logic = 'QF_NRA' if self.real else 'ALL'
        txt = '(set-logic %s)\n' % logic + s.to_smt2().replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt)
        try:
            self.stats.cvc5 += 1
            out = subprocess.run(['cvc5', '--tlimit=%d' % ms, fh.name], capture_output=True, text=True,
                                 timeout=ms / 1000 + 10).stdout.strip()
            if out.startswith('unsat'):
                return z3.unsat, None
        except (subprocess.TimeoutExpired, OSError):
            pass
        finally:
            os.unlink(fh.name)
        return None

    def add(self, c):
        k = c.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(c)

    def feasible(self, c):
        cons = self.cone([c]) + [c]
        if self.real and self.big(cons) and self.sample(c, 3) is not None:
            return True
        r, m = self.solve(cons, self.o['feas_ms'], feas=True)
        return r != z3.unsat

    def big(self, cons):
        n = 0
        seen = set()
        todo = list(cons)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            n += 1
            if n > 60:
                return True
            todo += e.children()
        return False

    def decide(self, c):
        """branch on a z3 Bool, returns python bool; explores both sides over the run"""
        if isinstance(c, (int, bool)):
            return bool(c)
        if c is UNDEF:
            raise Candidate('uninit', 'branch depends on an uninitialised value', self.where())
        if isinstance(c, _NonFinite):
            raise Candidate('nonfinite', 'branch depends on the result of a division by zero', self.where())
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            v, added = self.prefix[i]
            self.dec.append((v, added))
            if added:
                self.add(c if v else z3.simplify(z3.Not(c)))
            return v
        if c.get_id() in self.pcset:
            self.dec.append((True, False))
            return True
        n = z3.simplify(z3.Not(c))
        if n.get_id() in self.pcset:
            self.dec.append((False, False))
            return False
        ft = self.feasible(c)
        ff = self.feasible(n) if ft else True
        if ft and ff:
            if TRACE:
                print('FORK', self.where()[:200], '\n    ', str(c)[:400])
            self.work.append(self.dec + [(False, True)])
            self.dec.append((True, True))
            self.add(c)
            return True
        self.dec.append((ft, False))
        return ft

    def concretize(self, v, w):
        """enumerate (completely, over the run) the feasible values of a bit-vector"""
        if isinstance(v, int):
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        for _ in range(self.o.get('max_enum', 300)):
            i = len(self.dec)
            if i < len(self.prefix):
                k = self.prefix[i]
                self.dec.append(k)
                if k[0] == 'eq':
                    self.add(z3.simplify(v == k[1]))
                    return k[1]
                self.add(z3.simplify(v != k[1]))
                continue
            probe = v == z3.BitVec('_probe%d' % w, w)
            r, m = self.solve(self.cone([probe]) + [probe], self.o['query_ms'], feas=True)
            if r != z3.sat:
                if r == z3.unknown:
                    raise EngineError('cannot enumerate values of a term')
                raise PathEnd()
            x = m.eval(v, model_completion=True).as_long()
            if self.feasible(v != x):
                self.work.append(self.dec + [('ne', x)])
            self.dec.append(('eq', x))
            self.add(z3.simplify(v == x))
            return x
        raise EngineError('more than %d values for a concretised term' % self.o.get('max_enum', 300))

    def choose(self, n):
        """free n-way choice (all explored)"""
        i = len(self.dec)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.dec.append(k)
            return k[1]
        for j in range(n - 1, 0, -1):
            self.work.append(self.dec + [('pick', j)])
        self.dec.append(('pick', 0))
        return 0

    def assume(self, c):
        if c is UNDEF:
            raise Candidate('uninit', 'assumption depends on an uninitialised value', self.where())
        if isinstance(c, (int, bool)):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        i = len(self.dec)
        if i < len(self.prefix):
            self.dec.append(self.prefix[i])
            self.add(c)
            return
        if not self.feasible(c):
            raise PathEnd()
        self.dec.append(('as', 1))
        self.add(c)

    def model_for(self, extra, ms=None):
        """full model of the path condition plus extra constraints, or None (unsat) / 'unknown'"""
        cone = self.cone(extra)
        r, m = self.solve(cone + list(extra), ms or self.o['query_ms'])
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            return 'unknown'
        vals = {}
        inset = set()
        for c in cone + list(extra):
            inset |= zvars(c)
        for d in m.decls():
            vals[d.name()] = m[d]
        ids = set(c.get_id() for c in cone)
        rest = [c for c in self.pc if c.get_id() not in ids]
        facts = []
        names = set()
        for c in rest:
            names |= zvars(c)
        for n in names:
            g = poly.CTX.byname.get(n)
            if g is not None:
                facts += g.facts
        if rest:
            r2, m2 = self.solve(rest + facts, self.o['query_ms'], feas=True)
            if r2 == z3.unsat:
                return None             # nothing reaches this point
            if r2 == z3.sat:
                for d in m2.decls():
                    vals.setdefault(d.name(), m2[d])
        return vals

    def check(self, c, kind, msg):
        """assertion: c must hold for every value on this path"""
        site = kind + ':' + msg
        self.stats.sites[site] = self.stats.sites.get(site, 0) + 1
        if c is UNDEF:
            raise Candidate('uninit', 'checked value is uninitialised: ' + msg, self.where())
        if isinstance(c, _NonFinite):
            raise Candidate('nonfinite', msg, self.where())
        if isinstance(c, (int, bool)):
            if c:
                self.stats.trivial += 1
                return
            neg = z3.BoolVal(True)
        else:
            c = z3.simplify(c)
            if z3.is_true(c):
                self.stats.trivial += 1
                return
            neg = z3.simplify(z3.Not(c))
        i = len(self.dec)
        if i < len(self.prefix):         # decided when this prefix was first executed
            k = self.prefix[i]
            self.dec.append(k)
            if k[0] == 'chk-end':
                raise PathEnd()
            if k[0] == 'chk-as':
                self.add(c)
            return
        m = self.intrinsics.int_sample(self, neg, 60) if IP['wide'] else None
        if m is None:
            m = self.model_for([neg], self.o['first_ms'])
        if m == 'unknown':
            m = self.sample(neg, 24) or self.model_for([neg], self.o['query_ms'])
        elif m is not None:
            m = self.sample(neg, 6) or m
        if m is None:
            self.stats.discharged += 1
            self.dec.append(('chk', 1))
            return
        if m == 'unknown':
            raise EngineError('solver gave no answer for: ' + msg)
        self.record(Candidate(kind, msg, self.where()), m)
        if isinstance(c, (int, bool)):
            raise PathEnd()
        if not self.feasible(c):
            raise PathEnd()
        self.dec.append(('chk-as', 1))
        self.add(c)

    # numeric search for a concrete model (only to present a counterexample; the solver confirms it)
    def sample(self, neg, tries=6):
        if not self.real:
            return None
        return self.intrinsics.sample(self, neg, tries)

    def record(self, c, model=None):
        key = (c.kind, c.msg)
        n = sum(1 for x in self.cands if (x['kind'], x['msg']) == key)
        if n >= self.o['cand_limit']:
            return
        if model is None:
            model = None
            if self.real:
                model = self.sample(z3.BoolVal(True))
            if model is None:
                model = self.model_for([z3.BoolVal(True)])
            if model is None:      # the path turned out infeasible: nothing to report
                return
            if model == 'unknown':
                raise EngineError('no model for a violating path: ' + c.msg)
        vals = {}
        for name, inp in self.inputs_on_path.items():
            zname = inp['z']
            v = model.get(zname)
            vals[name] = self.intrinsics.value_str(inp, v)
        self.cands.append(dict(kind=c.kind, msg=c.msg, where=c.where, inputs=vals, trace=list(self.notes), rounded=self.rounded,
                               reals=[n for n, i in self.inputs_on_path.items() if i['kind'] == 'f64'],
                               near=[n for n, i in self.inputs_on_path.items() if i['kind'] == 'real'],
                               **({'earlier': self.history['inputs']} if self.history else {})))

    def where(self):
        return ' < '.join(reversed(self.callstack[-4:]))

    # ------------------------------------------------------------------ memory
    def new_obj(self, name, size):
        base = self.nextbase
        self.nextbase += (size + 47) // 16 * 16
        o = Obj(name, size, base)
        self.objs.append(o)
        return o

    def find_obj(self, addr):
        if self.io is not None and addr < 0x100:
            return self.io, addr
        for o in self.objs:
            if o.base <= addr <= o.base + o.size:
                return o, addr - o.base
        return None, addr

    def global_obj(self, name):
        o = self.gl.get(name)
        if o is None:
            name = self.m.aliases.get(name, name)
            if name in self.m.funcs:
                o = FnPtr(name)
            else:
                g = self.m.globals[name]
                if g.external:
                    o = self.new_obj(name, 64)
                    o.cells = {}
                else:
                    o = self.new_obj(name, self.size(g.type))
                self.gl[name] = o
                if g.init is not None:
                    self.store_const(o, 0, g.type, g.init)
                o.const = g.const
            self.gl[name] = o
            if not self.stateful and isinstance(o, Obj) and self.library_state(name):
                self.stateful = True
        return o

    def store_const(self, o, off, t, v):
        t = self.rt(t)
        if v[0] == 'zero':
            n = self.size(t)
            for i in range(n):
                o.cells[off + i] = (1, 0)
            return
        if v[0] == 'undef':
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if t[0] == 'arr':
                s = self.size(t[2])
                for i, x in enumerate(v[2]):
                    self.store_const(o, off + i * s, t[2], x)
            elif t[0] == 'vec':
                s = self.size(t[2])
                for i, x in enumerate(v[2]):
                    self.store_const(o, off + i * s, t[2], x)
            else:
                offs = self.layout(t)[2]
                for i, x in enumerate(v[2]):
                    self.store_const(o, off + offs[i], t[1][i], x)
            return
        self.put(o, off, t, self.ev(v, None))

    def access(self, p, n, what):
        if p is UNDEF:
            raise Candidate('uninit', '%s through an uninitialised pointer' % what, self.where())
        if isinstance(p, FnPtr) or isinstance(p, (FloatBits, Blob, _NonFinite)):
            raise Candidate('memory', '%s through a non-data pointer' % what, self.where())
        o = p.obj
        off = p.off
        if o is None:
            raise Candidate('memory', '%s through a null or invalid pointer' % what, self.where())
        if not o.alive:
            raise Candidate('memory', '%s after the end of the object lifetime' % what, self.where())
        if not isinstance(off, int):
            w = self.ptrw
            inb = z3.And(z3.ULE(off, z3.BitVecVal(max(o.size - n, 0), w)), z3.BoolVal(o.size >= n))
            self.check(inb, 'memory', 'out-of-bounds %s (%s)' % (what, self.callstack[-1]))
            off = self.concretize(off, w)
        off = sgn(mask(off, self.ptrw), self.ptrw)
        if off < 0 or off + n > o.size:
            raise Candidate('memory', 'out-of-bounds %s of %s at offset %d, size %d' % (what, o.name, off, o.size),
                            self.where())
        return o, off

    def load(self, p, t, vol=False):
        t = self.rt(t)
        n = self.size(t)
        if t[0] == 'st':
            offs = self.layout(t)[2]
            return [self.load(self.padd(p, offs[i]), f) for i, f in enumerate(t[1])]
        if t[0] == 'arr' or t[0] == 'vec':
            s = self.size(t[2])
            return [self.load(self.padd(p, i * s), t[2]) for i in range(t[1])]
        if vol and self.io is not None and isinstance(p, Ptr) and p.obj is None and p.off == 0:
            p = Ptr(self.io, 0)
        if isinstance(p, Ptr) and p.obj is not None and p.obj.mmio:
            return self.intrinsics.io_load(self, p, n, t, vol)
        o, off = self.access(p, n, 'read')
        if self.hooks.get('shared') and o.name in self.hooks['shared']:
            return self.intrinsics.shared_load(self, o, off, n, t)
        return self.get(o, off, t, n)

    def padd(self, p, k):
        if k == 0 or p is UNDEF:
            return p
        if isinstance(p.off, int):
            return Ptr(p.obj, p.off + k)
        return Ptr(p.obj, p.off + z3.BitVecVal(k, self.ptrw))

    def get(self, o, off, t, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.as_type(c[1], t, n)
        # gather
        parts = []
        i = off
        while i < off + n:
            c = o.cells.get(i)
            if c is not None and i + c[0] <= off + n:
                parts.append((i - off, c[0], c[1]))
                i += c[0]
                continue
            if c is None:
                # inside a wider cell?
                found = None
                for b in range(1, 17):
                    c2 = o.cells.get(i - b)
                    if c2 is not None:
                        if c2[0] > b:
                            found = (i - b, c2)
                        break
                if found is None:
                    parts.append((i - off, 1, UNDEF))
                    i += 1
                    continue
                self.split(o, found[0])
                continue
            self.split(o, i)
        if all(isinstance(v, int) or is_sym(v) for _, _, v in parts):
            if all(isinstance(v, int) for _, _, v in parts):
                x = 0
                for po, ps, v in parts:
                    x |= v << (8 * po)
                return self.as_type(x, t, n)
            e = [bv(self.tobv(v, ps * 8), ps * 8) for po, ps, v in reversed(parts)]
            x = simp(z3.Concat(*e)) if len(e) > 1 else e[0]
            return self.as_type(x, t, n)
        if all(v is UNDEF for _, _, v in parts):
            return UNDEF
        return self.as_type(Blob(parts, n), t, n)

    def tobv(self, v, w):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def split(self, o, i):
        """split the cell at offset i into bytes"""
        n, v = o.cells.pop(i)
        for b in range(n):
            if v is UNDEF:
                o.cells[i + b] = (1, UNDEF)
            elif isinstance(v, int):
                o.cells[i + b] = (1, (v >> (8 * b)) & 255)
            elif is_sym(v) and isinstance(v, z3.BitVecRef):
                o.cells[i + b] = (1, simp(z3.Extract(8 * b + 7, 8 * b, v)))
            elif isinstance(v, Ptr) and isinstance(v.off, int):
                a = self.p2i(v)
                o.cells[i + b] = (1, (a >> (8 * b)) & 255)
            elif isinstance(v, Rat) and v.isconst():
                raw = self.float_bits(v.value(), n * 8)
                o.cells[i + b] = (1, (raw >> (8 * b)) & 255)
            elif isinstance(v, z3.FPRef):
                x = z3.fpToIEEEBV(v)
                o.cells[i + b] = (1, simp(z3.Extract(8 * b + 7, 8 * b, x)))
            else:
                o.cells[i + b] = (1, UNDEF)

    def float_bits(self, fr, w):
        if w == 64:
            return struct.unpack('<Q', struct.pack('<d', float(fr)))[0]
        return struct.unpack('<I', struct.pack('<f', float(fr)))[0]

    def as_type(self, v, t, n):
        """reinterpret the cell value v (n bytes) as type t"""
        k = t[0]
        if v is UNDEF:
            return UNDEF
        if k == 'f':
            if isinstance(v, Rat) or isinstance(v, z3.FPRef) or v is NONFIN:
                return v
            if isinstance(v, FloatBits):
                return v.v
            if isinstance(v, int):
                return self.fconst_bits(v, t[1])
            if isinstance(v, z3.BitVecRef):
                if self.real:
                    raise EngineError('symbolic integer bits read as float')
                return z3.fpToFP(v, z3.Float64() if t[1] == 64 else z3.Float32())
            if isinstance(v, Blob):
                return UNDEF
        elif k == 'i':
            if isinstance(v, int):
                return mask(v, t[1])
            if isinstance(v, z3.BitVecRef):
                if t[1] == 1:
                    b = boolish(v)
                    return unwrap(simp(z3.Extract(0, 0, v) == 1 if b is None else b))
                if t[1] < v.size():
                    return simp(z3.Extract(t[1] - 1, 0, v))
                return v
            if isinstance(v, Rat):
                if v.isconst():
                    return self.float_bits(v.value(), n * 8)
                return FloatBits(v, n * 8)
            if v is NONFIN:
                return FloatBits(v, n * 8)
            if isinstance(v, z3.FPRef):
                return simp(z3.fpToIEEEBV(v))
            if isinstance(v, Ptr):
                return v      # pointer moved through an integer register
            if isinstance(v, (FloatBits, Blob)):
                return v
        elif k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if isinstance(v, int):
                return self.i2p(v)
            if isinstance(v, z3.BitVecRef):
                return self.i2p(v)
            if isinstance(v, Blob):
                return UNDEF
        raise EngineError('reinterpret %r as %r' % (type(v), t))

    def fconst_bits(self, v, w):
        x = struct.unpack('<d', struct.pack('<Q', v))[0] if w == 64 else \
            struct.unpack('<f', struct.pack('<I', v))[0]
        return self.fconst(x, w)

    def fconst(self, x, w):
        if self.real:
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                return NONFIN
            return Rat.const(Fraction(x))
        return z3.FPVal(x, z3.Float64() if w == 64 else z3.Float32())

    def put(self, o, off, t, v):
        n = self.size(t)
        if t[0] == 'i' and t[1] < n * 8 and not isinstance(v, (_Undef, Blob, FloatBits)):
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, n * 8), z3.BitVecVal(0, n * 8))
            elif isinstance(v, z3.BitVecRef):
                v = z3.ZeroExt(n * 8 - v.size(), v)
        # remove overlapped cells
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            for b in range(1, 17):
                c2 = cells.get(off - b)
                if c2 is not None:
                    if c2[0] > b:
                        self.split(o, off - b)
                    break
            i = off
            while i < off + n:
                c = cells.get(i)
                if c is None:
                    i += 1
                elif i + c[0] <= off + n:
                    del cells[i]
                    i += c[0]
                else:
                    self.split(o, i)
        if isinstance(v, Blob):
            for po, ps, x in v.cells:
                if x is not UNDEF:
                    cells[off + po] = (ps, x)
            cells.pop(off, None) if v.cells and v.cells[0][2] is UNDEF else None
            return
        if v is UNDEF:
            cells.pop(off, None)
            return
        if isinstance(v, FloatBits):
            v = v.v
        cells[off] = (n, v)

    def store(self, p, t, v, vol=False):
        t = self.rt(t)
        if t[0] == 'st':
            offs = self.layout(t)[2]
            for i, f in enumerate(t[1]):
                self.store(self.padd(p, offs[i]), f, UNDEF if v is UNDEF else v[i])
            return
        if t[0] in ('arr', 'vec'):
            s = self.size(t[2])
            for i in range(t[1]):
                self.store(self.padd(p, i * s), t[2], UNDEF if v is UNDEF else v[i])
            return
        n = self.size(t)
        if vol and self.io is not None and isinstance(p, Ptr) and p.obj is None and p.off == 0:
            p = Ptr(self.io, 0)
        if isinstance(p, Ptr) and p.obj is not None and p.obj.mmio:
            return self.intrinsics.io_store(self, p, n, t, v, vol)
        o, off = self.access(p, n, 'write')
        if o.const:
            raise Candidate('memory', 'write to constant object ' + o.name, self.where())
        if self.hooks.get('shared') and o.name in self.hooks['shared']:
            return self.intrinsics.shared_store(self, o, off, n, t, v)
        self.put(o, off, t, v)

    def copy(self, d, s, n):
        if n == 0:
            return
        so, soff = self.access(s, n, 'read')
        do, doff = self.access(d, n, 'write')
        cells = []
        i = soff
        # make sure no cell straddles the borders
        for b in range(1, 17):
            c2 = so.cells.get(soff - b)
            if c2 is not None:
                if c2[0] > b:
                    self.split(so, soff - b)
                break
        while i < soff + n:
            c = so.cells.get(i)
            if c is None:
                i += 1
            elif i + c[0] <= soff + n:
                cells.append((i - soff, c))
                i += c[0]
            else:
                self.split(so, i)
        for b in range(1, 17):
            c2 = do.cells.get(doff - b)
            if c2 is not None:
                if c2[0] > b:
                    self.split(do, doff - b)
                break
        i = doff
        while i < doff + n:
            c = do.cells.get(i)
            if c is None:
                i += 1
            elif i + c[0] <= doff + n:
                del do.cells[i]
                i += c[0]
            else:
                self.split(do, i)
        for off, c in cells:
            do.cells[doff + off] = c

    def cstr(self, p):
        o, off = p.obj, p.off
        b = bytearray()
        while True:
            c = o.cells[off]
            if c[1] == 0:
                break
            b.append(c[1])
            off += 1
        return b.decode()

    def p2i(self, p):
        if isinstance(p, int) or isinstance(p, z3.BitVecRef):
            return p
        if p is UNDEF:
            return UNDEF
        if isinstance(p, FnPtr):
            return 0x7f000000 + (hash(p.name) & 0xffff) * 16
        base = p.obj.base if p.obj is not None else 0
        if isinstance(p.off, int):
            return mask(base + p.off, self.ptrw)
        return p.off + z3.BitVecVal(base, self.ptrw)

    def i2p(self, v):
        if v is UNDEF or isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            if v == 0:
                return NULL
            o, off = self.find_obj(v)
            return Ptr(o, off)
        if self.io is not None:
            v = self.concretize(v, self.ptrw)
            return self.i2p(v)
        raise EngineError('symbolic integer to pointer')

    # ------------------------------------------------------------------ evaluation
    def ev(self, op, fr):
        k = op[0]
        if k == 'l':
            return fr.v[op[1]]
        if k == 'c':
            t = op[1]
            if t[0] == 'i':
                return op[2]
            if t[0] == 'f':
                return self.fconst(op[2], t[1])
            return NULL
        if k == 'g':
            o = self.global_obj(op[1])
            if isinstance(o, FnPtr):
                return o
            return Ptr(o, 0)
        if k == 'undef':
            t = self.rt(op[1])
            if t[0] == 'st':
                return [self.ev(('undef', f), fr) for f in t[1]]
            if t[0] in ('arr', 'vec'):
                return [UNDEF] * t[1]
            return UNDEF
        if k == 'zero':
            t = self.rt(op[1])
            if t[0] == 'st':
                return [self.ev(('zero', f), fr) for f in t[1]]
            if t[0] in ('arr', 'vec'):
                return [self.ev(('zero', t[2]), fr)] * t[1]
            if t[0] == 'f':
                return self.fconst(0.0, t[1])
            if t[0] == 'ptr':
                return NULL
            return 0
        if k == 'agg':
            return [self.ev(x, fr) for x in op[2]]
        if k == 'ce':
            if op[1] == 'gep':
                return self.gep(op[2], self.ev(op[3], fr), [(t, self.ev(v, fr)) for t, v in op[4]])
            if op[1] == 'cast':
                return self.cast(op[2], op[3], self.ev(op[4], fr), op[5])
            if op[1] == 'bin':
                return self.binop(op[2], op[3], self.ev(op[4], fr), self.ev(op[5], fr))
            if op[1] == 'icmp':
                return self.icmp(op[2], op[3], self.ev(op[4], fr), self.ev(op[5], fr))
        raise EngineError('operand %r' % (op,))

    def sx(self, v, w):
        """index of width w as pointer-width offset (int signed or BV)"""
        if isinstance(v, int):
            return sgn(v, w)
        if w < self.ptrw:
            return z3.SignExt(self.ptrw - w, v)
        if w > self.ptrw:
            return z3.Extract(self.ptrw - 1, 0, v)
        return v

    def gep(self, t, p, idx):
        if p is UNDEF:
            return UNDEF
        off = 0
        first = True
        for it, iv in idx:
            if iv is UNDEF:
                return UNDEF
            w = it[1]
            if first:
                first = False
                s = self.size(t)
            else:
                t = self.rt(t)
                if t[0] in ('arr', 'vec'):
                    t = t[2]
                    s = self.size(t)
                else:
                    off = off + self.layout(t)[2][iv]
                    t = t[1][iv]
                    continue
            i = self.sx(iv, w)
            if isinstance(i, int):
                off = off + i * s
            else:
                off = off + i * z3.BitVecVal(s, self.ptrw)
        if isinstance(off, int) and off == 0:
            return p
        if isinstance(p, FnPtr):
            raise EngineError('gep on function')
        if isinstance(off, int) and isinstance(p.off, int):
            return Ptr(p.obj, p.off + off)
        a = p.off if not isinstance(p.off, int) else z3.BitVecVal(mask(p.off, self.ptrw), self.ptrw)
        b = off if not isinstance(off, int) else z3.BitVecVal(mask(off, self.ptrw), self.ptrw)
        r = simp(a + b)
        if isinstance(r, int):
            r = sgn(r, self.ptrw)
        return Ptr(p.obj, r)

    # ---- integers
    def binop(self, op, t, a, b):
        if t[0] == 'f':
            return self.fbin(op, t, a, b)
        if t[0] == 'vec':
            return [self.binop(op, t[2], x, y) for x, y in zip(a, b)]
        w = t[1]
        if a is UNDEF or b is UNDEF or isinstance(a, (Blob, FloatBits)) or isinstance(b, (Blob, FloatBits)):
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if op == 'mul' and (a == 0 or b == 0):
                return 0
            return UNDEF
        if isinstance(a, Ptr):
            a = self.p2i(a)
        if isinstance(b, Ptr):
            b = self.p2i(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return mask(a + b, w)
            if op == 'sub':
                return mask(a - b, w)
            if op == 'mul':
                return mask(a * b, w)
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    raise Candidate('shift', 'shift by %d of a %d-bit value' % (b, w), self.where())
                if op == 'shl':
                    return mask(a << b, w)
                if op == 'lshr':
                    return a >> b
                return mask(sgn(a, w) >> b, w)
            if b == 0:
                raise Candidate('div', 'integer division by zero', self.where())
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            if y == -1 and x == -(1 << (w - 1)):
                raise Candidate('div', 'integer division overflow', self.where())
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return mask(q, w)
            if op == 'srem':
                return mask(x - q * y, w)
            raise EngineError(op)
        if w == 1:
            a, b = zbool(a), zbool(b)
            if op in ('and', 'mul'):
                return unwrap(z3.simplify(z3.And(a, b)))
            if op == 'or':
                return unwrap(z3.simplify(z3.Or(a, b)))
            if op in ('xor', 'add', 'sub'):
                return unwrap(z3.simplify(z3.Xor(a, b)))
            raise EngineError('i1 ' + op)
        if op == 'add':
            if isinstance(b, int) and b == 0:
                return a
            if isinstance(a, int) and a == 0:
                return b
        elif op == 'sub':
            if isinstance(b, int) and b == 0:
                return a
        elif op == 'mul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if x == 0:
                        return 0
                    if x == 1:
                        return y
        elif op in ('sdiv', 'udiv'):
            if isinstance(b, int) and b == 1:
                return a
        if op in ('and', 'or', 'xor'):
            x, y = boolish(a), boolish(b)
            if x is not None and y is not None:
                c = z3.simplify(z3.And(x, y) if op == 'and' else z3.Or(x, y) if op == 'or' else z3.Xor(x, y))
                if z3.is_true(c) or z3.is_false(c):
                    return int(z3.is_true(c))
                return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int) or b >= w:
                self.check(z3.ULT(B, w), 'shift', 'shift amount within the width (%s)' % self.callstack[-1])
            if op == 'ashr':
                A = z3.simplify(A)
                r = ~(A.arg(0) >> B) if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_BNOT else A >> B
            else:
                r = A << B if op == 'shl' else z3.LShR(A, B)
        else:
            if IP['wide'] and not isinstance(b, int):
                pb = ipoly(z3.simplify(B))[0]
                if not set(pb) - {()}:
                    return self.binop(op, t, a, mask(pb.get((), 0), w))
            if not isinstance(b, int) or b == 0:
                self.check(B != 0, 'div', 'integer division by zero (%s)' % self.callstack[-1])
            if op in ('sdiv', 'srem') and (not isinstance(b, int) or sgn(b, w) == -1):
                self.check(z3.Not(z3.And(A == z3.BitVecVal(1 << (w - 1), w), B == z3.BitVecVal((1 << w) - 1, w))),
                           'div', 'integer division overflow (%s)' % self.callstack[-1])
            if op == 'udiv':
                r = z3.UDiv(A, B)
            elif op == 'urem':
                r = z3.URem(A, B)
            elif op in ('sdiv', 'srem'):
                r = canon_div(op, A, B, w)
            else:
                raise EngineError(op)
        return simp(r)

    def icmp(self, pr, t, a, b):
        if t[0] == 'ptr':
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return int(same if pr == 'eq' else not same)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
                if isinstance(a, int) and isinstance(b, int):
                    a += 1 << 20
                    b += 1 << 20
            else:
                a, b = self.p2i(a), self.p2i(b)
            w = self.ptrw
            if isinstance(a, int):
                a = mask(a, w)
            if isinstance(b, int):
                b = mask(b, w)
        else:
            w = t[1]
            if a is UNDEF or b is UNDEF or isinstance(a, (Blob, FloatBits)) or isinstance(b, (Blob, FloatBits)):
                return UNDEF
            if isinstance(a, Ptr):
                a = self.p2i(a)
            if isinstance(b, Ptr):
                b = self.p2i(b)
        if isinstance(a, int) and isinstance(b, int):
            if pr == 'eq':
                return int(a == b)
            if pr == 'ne':
                return int(a != b)
            if pr[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]])
        if w == 1:
            A, B = zbool(a), zbool(b)
            if pr == 'eq':
                return unwrap(z3.simplify(A == B))
            if pr == 'ne':
                return unwrap(z3.simplify(z3.Xor(A, B)))
            raise EngineError('icmp i1')
        A, B = bv(a, w), bv(b, w)
        if IP['wide'] and pr[0] != 'u':
            r = icompare(pr, z3.simplify(A), z3.simplify(B), self)
            if r is not None:
                self.stats.norm += 1
                return r
        if pr == 'eq':
            r = A == B
        elif pr == 'ne':
            r = A != B
        elif pr == 'slt':
            r = A < B
        elif pr == 'sle':
            r = A <= B
        elif pr == 'sgt':
            r = A > B
        elif pr == 'sge':
            r = A >= B
        elif pr == 'ult':
            r = z3.ULT(A, B)
        elif pr == 'ule':
            r = z3.ULE(A, B)
        elif pr == 'ugt':
            r = z3.UGT(A, B)
        else:
            r = z3.UGE(A, B)
        return simp(r)

    # ---- floats
    def fbin(self, op, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if self.real:
            if a is NONFIN or b is NONFIN:
                return NONFIN
            if op == 'fadd':
                return a.add(b)
            if op == 'fsub':
                return a.add(b, -1)
            if op == 'fmul':
                return a.mul(b)
            if op == 'fdiv':
                return self.rdiv(a, b)
            if op == 'frem':
                raise EngineError('frem')
            raise EngineError(op)
        rm = z3.RNE()
        if op == 'fadd':
            r = z3.fpAdd(rm, a, b)
        elif op == 'fsub':
            r = z3.fpSub(rm, a, b)
        elif op == 'fmul':
            r = z3.fpMul(rm, a, b)
        elif op == 'fdiv':
            k = self.pow2(b)
            if k is not None:           # x / 2^k == x * 2^-k exactly (normal reciprocal)
                r = z3.fpMul(rm, a, z3.FPVal(1.0 / k, b.sort()))
            else:
                r = z3.fpDiv(rm, a, b)
        elif op == 'frem':
            r = z3.fpRem(a, b)
        else:
            raise EngineError(op)
        return z3.simplify(r)

    def pow2(self, b):
        b = z3.simplify(b)
        if z3.is_fprm_value(b) or not z3.is_fp_value(b):
            return None
        if b.isInf() or b.isNaN() or b.isZero():
            return None
        v = float(Fraction(b.significand_as_long(), 1 << (b.sbits() - 1)) + 1) if False else self.fpval(b)
        if v is None or v <= 0:
            return None
        fr = Fraction(v)
        n, d = fr.numerator, fr.denominator
        if n & (n - 1) == 0 and d & (d - 1) == 0 and 2.0 ** -100 < v < 2.0 ** 100:
            return v
        return None

    def fpval(self, b):
        bits = z3.simplify(z3.fpToIEEEBV(b))
        if not z3.is_bv_value(bits):
            return None
        x = bits.as_long()
        if bits.size() == 64:
            return struct.unpack('<d', struct.pack('<Q', x))[0]
        return struct.unpack('<f', struct.pack('<I', x))[0]

    def rdiv(self, a, b):
        if b.isconst():
            v = b.value()
            if v == 0:
                return NONFIN
            return a.mul(Rat.const(1 / v))
        if self.nonzero(b):
            return a.div(b)
        return NONFIN

    def nonzero(self, b):
        """fork on b == 0 (False) / b != 0 (True)"""
        if b.isconst():
            return b.value() != 0
        k, fs = poly.factors_of(b.n)
        ok = True
        for f in fs:
            s = self.signs.get(f)
            if s:
                continue
            q = self.quick_sign(f)
            if q is not None and q[1]:
                self.signs[f] = q[0]
                continue
            z = f.z3()
            if not self.decide(z != 0):
                return False
            self.signs.setdefault(f, 'nz')
        return ok

    def sign_reduced(self, x):
        """polynomial having the sign of the Rat x, dropping factors of known sign"""
        n = x.n
        for f, e in x.d.items():
            if e % 2 == 0:
                continue
            s = self.signs.get(f)
            if s is None or s == 'nz':
                q = self.quick_sign(f)
                s = q[0] if q is not None and q[1] else self.find_sign(f)
                self.signs[f] = s
            if s == 1:
                continue
            if s == -1:
                n = n.scale(-1)
            else:
                n = n.mul(f)
        return n

    def find_sign(self, f):
        z = f.z3()
        i = len(self.dec)
        if i < len(self.prefix) and self.prefix[i][0] == 'sign':
            k = self.prefix[i]
            self.dec.append(k)
            return k[1]
        if not self.feasible(z <= 0):
            s = 1
        elif not self.feasible(z >= 0):
            s = -1
        else:
            s = 'nz'
        self.dec.append(('sign', s))
        return s

    def rcmp(self, rel, a, b):
        """z3 Bool (or python int) for a REL b over reals"""
        d = a.add(b, -1)
        if d.isconst():
            v = d.value()
            return int({'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[rel])
        if rel in ('eq', 'ne'):
            p = d.n
        else:
            p = self.sign_reduced(d)
        if p.isconst():
            v = p.const()
            return int({'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[rel])
        q = self.quick_sign(p)
        if q is not None:
            s, strict = q
            if s < 0:
                rel2 = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(rel, rel)
            else:
                rel2 = rel
            if rel2 == 'ge':
                return 1
            if rel2 == 'lt':
                return 0
            if strict and rel2 in ('gt', 'ne'):
                return 1
            if strict and rel2 in ('le', 'eq'):
                return 0
        z = p.z3()
        if rel == 'eq':
            r = z == 0
        elif rel == 'ne':
            r = z != 0
        elif rel == 'lt':
            r = z < 0
        elif rel == 'le':
            r = z <= 0
        elif rel == 'gt':
            r = z > 0
        else:
            r = z >= 0
        return r

    def quick_sign(self, p):
        """sign of a polynomial when the lower bounds of its variables settle it: (1 or -1, strictly) or None"""
        if p.isconst() or not p.t:
            return None
        if self.bounds is None or self.bounds.n > len(self.pc):
            self.bounds = signs.Bounds()
        self.bounds.update(self.pc)
        k, fs = poly.factors_of(p)
        s, strict = (1 if k > 0 else -1), True
        for f, e in fs.items():
            q = self.bounds.sign(f)
            if q is None:
                return None
            if e % 2:
                s *= q[0]
            strict = strict and q[1]
        return s, strict

    def rcmp_pure(self, rel, a, b):
        """as rcmp, as a z3 Bool and without consulting the path (used for facts about generators)"""
        d = a.add(b, -1)
        p = d.n if rel in ('eq', 'ne') else d.signpoly()
        z = p.z3()
        return {'eq': lambda: z == 0, 'ne': lambda: z != 0, 'lt': lambda: z < 0, 'le': lambda: z <= 0,
                'gt': lambda: z > 0, 'ge': lambda: z >= 0}[rel]()

    def check_identity(self, x, y, msg):
        """x == y by normal form; the solver re-decides it on the cross-multiplied terms when they are small"""
        site = 'check:' + msg
        self.stats.sites[site] = self.stats.sites.get(site, 0) + 1
        i = len(self.dec)
        if i < len(self.prefix):
            self.dec.append(self.prefix[i])
            return
        self.dec.append(('chk', 1))
        self.stats.norm += 1
        if x.isconst() and y.isconst():
            self.stats.trivial += 1
            self.stats.norm -= 1
            return
        size = (len(x.n.t) + 1) * (sum(len(f.t) for f in y.d) + 1) + (len(y.n.t) + 1) * (sum(len(f.t) for f in x.d) + 1)
        if size > self.o['ident_size']:
            return
        l, r = x.n.z3(), y.n.z3()
        for f, e in y.d.items():
            for _ in range(e):
                l = l * f.z3()
        for f, e in x.d.items():
            for _ in range(e):
                r = r * f.z3()
        neg = l != r
        t = time.time()
        facts = [f for f in self.cone([neg]) if True] if any(
            poly.CTX.byname[n].facts for n in zvars(neg) if n in poly.CTX.byname) else []
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*facts)
        s.add(neg)
        res = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if res == z3.unsat:
            self.stats.discharged += 1
            self.stats.norm -= 1
        elif res == z3.sat:
            raise EngineError('normal form and solver disagree on ' + msg)

    def fcmp(self, pr, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pr == 'true':
            return 1
        if pr == 'false':
            return 0
        if self.real:
            if a is NONFIN or b is NONFIN:
                return NONFIN
            if pr == 'uno':
                return 0
            if pr == 'ord':
                return 1
            return self.rcmp(pr[1:], a, b)
        if pr == 'uno':
            r = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        elif pr == 'ord':
            r = z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
        else:
            f = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pr[1:]]
            r = f(a, b)
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if pr[0] == 'u':
                r = z3.Or(nan, r)
            elif pr == 'one':
                r = z3.And(z3.Not(nan), r)
        return simp(r)

    def fneg(self, v):
        if v is UNDEF or v is NONFIN:
            return v
        if self.real:
            return v.neg()
        return z3.simplify(z3.fpNeg(v))

    def cast(self, op, ft, v, tt):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'addrspacecast'):
            a, b = self.rt(ft), self.rt(tt)
            if a == b or a[0] == b[0] == 'ptr':
                return v
            return self.as_type(v, b, self.size(b))
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and tt[1] == self.ptrw:
                return v
            r = self.p2i(v)
            if isinstance(r, int):
                return mask(r, tt[1])
            return z3.Extract(tt[1] - 1, 0, r) if tt[1] < self.ptrw else r
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return self.i2p(mask(v, self.ptrw))
            if ft[1] > self.ptrw:
                v = simp(z3.Extract(self.ptrw - 1, 0, v))
            elif ft[1] < self.ptrw:
                v = simp(z3.ZeroExt(self.ptrw - ft[1], v))
            return self.i2p(v)
        if op in ('trunc', 'zext', 'sext'):
            a, b = ft[1], tt[1]
            if isinstance(v, Ptr):
                v = self.p2i(v)
            if isinstance(v, int):
                if op == 'sext':
                    return mask(sgn(v, a), b)
                return mask(v, b)
            if isinstance(v, (FloatBits, Blob)):
                if isinstance(v, Blob) and op == 'trunc':
                    # leading (low) cells covering the truncated width
                    cs = [c for c in v.cells if c[0] + c[1] <= b // 8]
                    if len(cs) == 1 and cs[0][1] * 8 == b:
                        return self.as_type(cs[0][2], tt, b // 8)
                return UNDEF
            if a == 1:
                if op == 'sext':
                    return z3.If(v, z3.BitVecVal((1 << b) - 1, b), z3.BitVecVal(0, b))
                return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
            if b == 1:
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    c, x, y = v.children()
                    if z3.is_bv_value(x) and z3.is_bv_value(y):
                        xa, ya = x.as_long() & 1, y.as_long() & 1
                        if xa and not ya:
                            return c
                        if ya and not xa:
                            return z3.Not(c)
                return simp(z3.Extract(0, 0, v) == 1)
            if op == 'trunc':
                return simp(z3.Extract(b - 1, 0, v))
            if op == 'zext':
                return simp(z3.ZeroExt(b - a, v))
            return simp(z3.SignExt(b - a, v))
        if op == 'fpext':
            if self.real or v is NONFIN:
                return v
            return z3.simplify(z3.fpFPToFP(z3.RNE(), v, z3.Float64()))
        if op == 'fptrunc':
            if v is NONFIN:
                return v
            if self.real:
                if self.o['f32'] == 'exact':
                    return v
                if v.isconst():
                    return Rat.const(Fraction(f32round(v.value())))
                return self.intrinsics.round32(self, v)
            return z3.simplify(z3.fpFPToFP(z3.RNE(), v, z3.Float32()))
        if op in ('sitofp', 'uitofp'):
            w = ft[1]
            if self.real:
                if isinstance(v, z3.BoolRef):
                    v = int(self.decide(v))
                    return Rat.const(-v if op == 'sitofp' else v)
                if not isinstance(v, int):
                    r = self.intrinsics.int_real(self, v, w, op == 'sitofp')
                    if r is not None:
                        return r
                    v = self.concretize(v, w)
                return Rat.const(sgn(v, w) if op == 'sitofp' else v)
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                if op == 'sitofp':
                    v = -v
                w = 8
            so = z3.Float64() if tt[1] == 64 else z3.Float32()
            if isinstance(v, int):
                x = sgn(v, w) if op == 'sitofp' else v
                return z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(x), so)) if abs(x) >= 1 << 53 else \
                    z3.simplify(z3.fpFPToFP(z3.RNE(), z3.FPVal(float(x), z3.Float64()), so))
            if op == 'sitofp':
                return z3.fpSignedToFP(z3.RNE(), v, so)
            return z3.fpUnsignedToFP(z3.RNE(), v, so)
        if op in ('fptosi', 'fptoui'):
            w = tt[1]
            if v is NONFIN:
                raise Candidate('nonfinite', 'conversion of a non-finite value to an integer', self.where())
            if self.real:
                if not v.isconst():
                    return self.intrinsics.real_int(self, v, w, op == 'fptosi')
                x = v.value()
                return mask(int(x), w)
            if op == 'fptosi':
                return simp(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)))
            return simp(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w)))
        raise EngineError('cast ' + op)

    # ------------------------------------------------------------------ calls and the main loop
    def call(self, name, args, rt, argt=()):
        name = self.m.aliases.get(name, name)
        h = self.intr.get(name)
        if h is None:
            h = self.intrinsics.match(self, name)
        if h is not None:
            return h(self, args, rt, argt)
        f = self.m.funcs.get(name)
        if f is None or not f.defined:
            raise EngineError('no model for external function ' + name)
        return self.call_defined(f, args)

    def call_defined(self, f, args):
        self.m.body(f)
        self.stats.funcs.add(f.name)
        self.depth += 1
        if self.depth > 120:
            raise Candidate('nonterm', 'call depth 120 exceeded in ' + f.name, self.where())
        self.callstack.append(f.name)
        fr = Frame(f)
        for (t, nm, at), v in zip(f.params, args):
            for x in at:
                if isinstance(x, tuple) and x[0] == 'byval':
                    o = self.new_obj('byval.' + nm, self.size(x[1]))
                    self.copy(Ptr(o, 0), v, self.size(x[1]))
                    v = Ptr(o, 0)
                    fr.objs.append(o)
            fr.v[nm] = v
        blk = f.blocks[f.entry]
        cur = f.entry
        r = None
        while True:
            nxt = None
            for ins in blk:
                self.tick()
                k = ins[0]
                if k == 'load':
                    fr.v[ins[1]] = self.load(self.ev(ins[3], fr), ins[2], ins[4])
                elif k == 'store':
                    self.store(self.ev(ins[4], fr), ins[2], self.ev(ins[3], fr), ins[5])
                elif k == 'gep':
                    fr.v[ins[1]] = self.gep(ins[2], self.ev(ins[3], fr), [(t, self.ev(v, fr)) for t, v in ins[4]])
                elif k == 'alloca':
                    n = self.size(ins[2])
                    if ins[3] is not None:
                        n *= self.concretize(self.ev(ins[3][1], fr), ins[3][0][1])
                    o = self.new_obj('%s.%s' % (f.name[-40:], ins[1]), n)
                    fr.objs.append(o)
                    fr.v[ins[1]] = Ptr(o, 0)
                elif k == 'call':
                    self.do_call(ins, fr)
                elif k == 'br':
                    nxt = ins[2]
                elif k == 'cbr':
                    c = self.ev(ins[2], fr)
                    m = self.same_arms(f, fr, cur, ins) if is_sym(c) and not self.real else None
                    if m is None:
                        nxt = ins[3] if self.decide(c) else ins[4]
                    else:
                        cur, nxt = m
                elif k == 'bin':
                    fr.v[ins[1]] = self.binop(ins[2], ins[3], self.ev(ins[4], fr), self.ev(ins[5], fr))
                elif k == 'icmp':
                    fr.v[ins[1]] = self.icmp(ins[2], ins[3], self.ev(ins[4], fr), self.ev(ins[5], fr))
                elif k == 'cast':
                    fr.v[ins[1]] = self.cast(ins[2], ins[3], self.ev(ins[4], fr), ins[5])
                elif k == 'ret':
                    r = self.ev(ins[3], fr) if ins[3] is not None else None
                    for o in fr.objs:
                        o.alive = False
                        o.cells = {}
                    self.objs = [o for o in self.objs if o.alive] if len(self.objs) > 400 else self.objs
                    self.callstack.pop()
                    self.depth -= 1
                    return r
                elif k == 'fcmp':
                    fr.v[ins[1]] = self.fcmp(ins[2], ins[3], self.ev(ins[4], fr), self.ev(ins[5], fr))
                elif k == 'phi':
                    vals = None
                    # phis evaluate in parallel
                    j = blk.index(ins)
                    if fr.prev is not None and (j == 0 or blk[j - 1][0] != 'phi'):
                        group = []
                        for x in blk[j:]:
                            if x[0] != 'phi':
                                break
                            group.append((x[1], self.ev(x[3][fr.prev], fr)))
                        for nme, v in group:
                            fr.v[nme] = v
                elif k == 'select':
                    fr.v[ins[1]] = self.select(ins, fr)
                elif k == 'fneg':
                    fr.v[ins[1]] = self.fneg(self.ev(ins[3], fr))
                elif k == 'switch':
                    nxt = self.switch(ins, fr)
                elif k == 'extractvalue':
                    v = self.ev(ins[3], fr)
                    for i in ins[4]:
                        if v is UNDEF:
                            break
                        v = v[i]
                    fr.v[ins[1]] = v
                elif k == 'insertvalue':
                    v = self.ev(ins[3], fr)
                    e = self.ev(ins[4], fr)
                    fr.v[ins[1]] = self.insert(v, e, ins[5])
                elif k == 'freeze':
                    fr.v[ins[1]] = self.ev(ins[3], fr)
                elif k == 'unreachable':
                    raise Candidate('unreachable', 'unreachable code reached', self.where())
                elif k == 'extractelement':
                    (t, v), (it, i) = ins[2]
                    fr.v[ins[1]] = self.ev(v, fr)[self.ev(i, fr)]
                elif k == 'insertelement':
                    (t, v), (et, e), (it, i) = ins[2]
                    x = self.ev(v, fr)
                    x = [UNDEF] * t[1] if x is UNDEF else list(x)
                    x[self.ev(i, fr)] = self.ev(e, fr)
                    fr.v[ins[1]] = x
                elif k == 'nop':
                    pass
                else:
                    raise EngineError('instruction ' + k)
                if nxt is not None:
                    break
            fr.prev = cur
            cur = nxt
            blk = f.blocks[nxt]

    def same_arms(self, f, fr, cur, ins):
        """both arms of a branch when they have the same effect: (last block of an arm, block after them), or None"""
        chains = []
        for lab in (ins[3], ins[4]):
            ch = [lab]
            while len(ch) < 6 and f.blocks[ch[-1]][-1][0] == 'br':
                ch.append(f.blocks[ch[-1]][-1][2])
            chains.append(ch)
        join = next((x for x in chains[0] if x in chains[1]), None)
        if join is None:
            return None
        outs = []
        for ch in chains:
            undo = {}
            r = None
            try:
                prev = cur
                for lab in ch[:ch.index(join)]:
                    for x in f.blocks[lab]:
                        self.tick()
                        k = x[0]
                        if k == 'load' and not x[4]:
                            p = self.ev(x[3], fr)
                            if not (isinstance(p, Ptr) and p.obj is not None and not p.obj.mmio):
                                raise _NotSame
                            fr.v[x[1]] = self.load(p, x[2], x[4])
                        elif k == 'store' and not x[5]:
                            p = self.ev(x[4], fr)
                            if not (isinstance(p, Ptr) and p.obj is not None and isinstance(p.off, int)) or p.obj.mmio:
                                raise _NotSame
                            if p.obj not in undo:
                                undo[p.obj] = dict(p.obj.cells)
                            self.store(p, x[2], self.ev(x[3], fr), x[5])
                        elif k == 'bin' and x[2] in _TOTAL:
                            b = self.ev(x[5], fr)
                            if x[2] in _SHIFTS and not isinstance(b, int):
                                raise _NotSame
                            fr.v[x[1]] = self.binop(x[2], x[3], self.ev(x[4], fr), b)
                        elif k == 'icmp':
                            fr.v[x[1]] = self.icmp(x[2], x[3], self.ev(x[4], fr), self.ev(x[5], fr))
                        elif k == 'cast' and x[2] in ('trunc', 'sext', 'zext'):
                            fr.v[x[1]] = self.cast(x[2], x[3], self.ev(x[4], fr), x[5])
                        elif k == 'gep':
                            fr.v[x[1]] = self.gep(x[2], self.ev(x[3], fr), [(t, self.ev(v, fr)) for t, v in x[4]])
                        elif k not in ('br', 'nop'):
                            raise _NotSame
                    prev = lab
                phis = [(x[1], self.ev(x[3][prev], fr)) for x in f.blocks[join] if x[0] == 'phi']
                r = prev, phis, {o: dict(o.cells) for o in undo}
            except (_NotSame, Candidate, EngineError, PathEnd):
                pass
            for o, cells in undo.items():
                o.cells = cells
            if r is None:
                return None
            outs.append(r)
        (prev, phis, mem), (_, phis2, mem2) = outs
        for o in set(mem) | set(mem2):
            a, b = mem.get(o, o.cells), mem2.get(o, o.cells)
            if a.keys() != b.keys() or any(a[i][0] != b[i][0] or not self.same_value(a[i][1], b[i][1], 8 * a[i][0])
                                           for i in a if a[i] is not b[i]):
                return None
        if any(not self.same_value(a, b, None) for (_, a), (_, b) in zip(phis, phis2)):
            return None
        for o, cells in mem.items():
            o.cells = cells
        return prev, join

    def same_value(self, a, b, w):
        if a is b:
            return True
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            return a == b
        if isinstance(a, z3.BitVecRef):
            w = a.size()
        elif isinstance(b, z3.BitVecRef):
            w = b.size()
        if w is None or not all(isinstance(x, (int, z3.BitVecRef)) for x in (a, b)):
            return False
        a, b = bv(a, w), bv(b, w)
        if IP['wide']:
            return icompare('eq', a, b, self) == 1
        return z3.simplify(a).eq(z3.simplify(b))

    def insert(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], e, idx[1:])
        return v

    def select(self, ins, fr):
        c = self.ev(ins[3], fr)
        a = self.ev(ins[4], fr)
        b = self.ev(ins[5], fr)
        t = ins[2]
        if isinstance(c, int):
            return a if c else b
        if c is UNDEF:
            return UNDEF
        if t[0] == 'i' and not isinstance(a, (_Undef, Ptr, Blob, FloatBits)) and \
                not isinstance(b, (_Undef, Ptr, Blob, FloatBits)):
            if t[1] == 1:
                return unwrap(z3.simplify(z3.If(c, zbool(a), zbool(b))))
            if IP['wide'] and self.same_value(a, b, t[1]):
                return a
            return simp(z3.If(c, bv(a, t[1]), bv(b, t[1])))
        return a if self.decide(c) else b

    def switch(self, ins, fr):
        v = self.ev(ins[3], fr)
        if v is UNDEF:
            raise Candidate('uninit', 'switch on an uninitialised value', self.where())
        if isinstance(v, int):
            for cv, lab in ins[5]:
                if cv == v:
                    return lab
            return ins[4]
        w = ins[2][1]
        for cv, lab in ins[5]:
            if self.decide(v == z3.BitVecVal(cv, w)):
                return lab
        return ins[4]

    def do_call(self, ins, fr):
        callee = ins[3]
        args = [None if a[1] is None else self.ev(a[1], fr) for a in ins[4]]
        if callee[0] == 'asm':
            r = self.intrinsics.asm(self, callee[1], callee[2], args, ins[2])
        else:
            if callee[0] == 'g':
                name = callee[1]
            else:
                p = self.ev(callee, fr)
                if not isinstance(p, FnPtr):
                    raise Candidate('memory', 'call through a bad function pointer', self.where())
                name = p.name
            for i, a in enumerate(ins[4]):
                for x in a[2]:
                    if isinstance(x, tuple) and x[0] == 'byval':
                        pass     # copied by the callee
            r = self.call(name, args, ins[2], [a[0] for a in ins[4]])
        if ins[1] is not None:
            fr.v[ins[1]] = r
