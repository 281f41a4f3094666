"""AVR register file, interrupts and inline assembly.

The data-space addresses 0x00-0xff are the hardware registers.  Their initial contents are arbitrary (one symbolic byte
each); a register keeps what is written to it, unless the harness declares it live (vp_io_live), then every read gives a
new arbitrary value.  Volatile accesses are logged byte by byte, in the order avr-gcc uses (read: low byte first, write:
high byte first); accesses that are not volatile are no observable behaviour and are not logged.  An interrupt handler
given to vp_isr may run before each byte access to an object given to vp_shared, while interrupts are enabled.
"""
import z3
import sym as S

SREG = 0x5f
QUIET = (0x5d, 0x5e, 0x5f)         # SP and SREG: the compiler itself accesses them


def start(E):
    E.iov = {}
    E.iolog = []
    E.ioold = {}
    E.iolive = {}
    E.ioready = {}
    E.isr = None
    E.inisr = False
    E.isrcount = 0
    if E.avr:
        o = S.Obj('io', 0x100, 0)
        o.mmio = True
        E.io = o


def name(a):
    return 'io_%02x' % a


def initial(E, a):
    n = name(a)
    if E.pre is not None:
        import intrinsics
        return intrinsics.earlier(E, n, 'int', 8)
    E.inputs_on_path[n] = dict(kind='int', w=8, z=n)
    v = z3.BitVec(n, 8)
    return v


def content(E, a):
    if a not in E.iov:
        E.iov[a] = initial(E, a)
        E.ioold.setdefault(a, E.iov[a])
    return E.iov[a]


def old(E, a):
    if a in E.ioold:
        return E.ioold[a]
    return content(E, a)


def ion(E):
    """interrupts enabled"""
    s = content(E, SREG)
    return s >> 7 if isinstance(s, int) else S.simp(z3.LShR(s, 7))


def read1(E, a, vol):
    if vol and a in E.iolive:
        n = '%s.%d' % (name(a), E.iolive[a])
        E.iolive[a] += 1
        if E.pre is not None:
            import intrinsics
            m, k, since = E.ioready.get(a, (0, 1, 0))
            if a in E.ioready:
                E.ioready[a] = (m, k, since + 1)
            if since >= k and n not in E.pre:
                E.pre[n] = str(m | E.prerng.randrange(256))
            E.iov[a] = intrinsics.earlier(E, n, 'int', 8)
            return E.iov[a]
        E.inputs_on_path[n] = dict(kind='int', w=8, z=n)
        E.ioold.setdefault(a, content(E, a))
        E.iov[a] = z3.BitVec(n, 8)
        if a in E.ioready:
            m, k, since = E.ioready[a]
            E.ioready[a] = (m, k, since + 1)
            if since >= k:
                E.assume(E.iov[a] & z3.BitVecVal(m, 8) == z3.BitVecVal(m, 8))
    v = content(E, a)
    if vol and a not in QUIET:
        E.iolog.append((0, a, v, ion(E)))
    return v


def write1(E, a, v, vol):
    content(E, a)
    E.iov[a] = v
    if vol and a in E.ioready:
        E.ioready[a] = E.ioready[a][:2] + (0,)
    if vol and a not in QUIET:
        E.iolog.append((1, a, v, ion(E)))


def address(E, p, n):
    off = p.off
    if not isinstance(off, int):
        off = E.concretize(off, E.ptrw)
    off &= 0xffff
    if off + n > 0x100:
        raise S.Candidate('memory', 'register access at invalid address %#x' % off, E.where())
    return off


def io_load(E, p, n, t, vol):
    a = address(E, p, n)
    bs = [read1(E, a + i, vol) for i in range(n)]
    if all(isinstance(b, int) for b in bs):
        x = 0
        for i, b in enumerate(bs):
            x |= b << (8 * i)
        return E.as_type(x, t, n)
    e = [S.bv(b, 8) for b in reversed(bs)]
    x = S.simp(z3.Concat(*e)) if n > 1 else e[0]
    return E.as_type(x, t, n)


def io_store(E, p, n, t, v, vol):
    a = address(E, p, n)
    if v is S.UNDEF:
        raise S.Candidate('uninit', 'uninitialised value written to a register', E.where())
    if t[0] == 'f' or not (isinstance(v, (int, z3.BitVecRef))):
        raise S.EngineError('value written to a register is no integer')
    for i in reversed(range(n)):
        b = (v >> (8 * i)) & 255 if isinstance(v, int) else S.simp(z3.Extract(8 * i + 7, 8 * i, v))
        write1(E, a + i, b, vol)


# ------------------------------------------------------------------------------- interrupts
def point(E):
    """an interrupt may be taken here"""
    if E.isr is None or E.inisr or E.isrcount >= E.isr[1]:
        return
    s = content(E, SREG)
    on = ((s >> 7) & 1) if isinstance(s, int) else z3.Extract(7, 7, s) == z3.BitVecVal(1, 1)
    if isinstance(on, int):
        if not on:
            return
    elif not E.decide(S.simp(on)):
        return
    if E.choose(2) == 0:
        return
    E.isrcount += 1
    E.inisr = True
    E.iov[SREG] = s & 0x7f if isinstance(s, int) else S.simp(s & z3.BitVecVal(0x7f, 8))
    E.call(E.isr[0], [], ('void',), [])
    E.iov[SREG] = s
    E.inisr = False


def shared_load(E, o, off, n, t):
    if n == 1 or E.inisr:
        point(E)
        return E.get(o, off, t, n)
    bs = []
    for i in range(n):
        point(E)
        bs.append(E.get(o, off + i, ('i', 8), 1))
    if any(b is S.UNDEF for b in bs):
        return S.UNDEF
    if any(not isinstance(b, (int, z3.BitVecRef)) for b in bs):
        raise S.EngineError('shared value is no integer')
    if all(isinstance(b, int) for b in bs):
        x = 0
        for i, b in enumerate(bs):
            x |= b << (8 * i)
    else:
        x = S.simp(z3.Concat(*[S.bv(b, 8) for b in reversed(bs)]))
    return E.as_type(x, t, n)


def shared_store(E, o, off, n, t, v):
    if n == 1 or E.inisr or v is S.UNDEF or not isinstance(v, (int, z3.BitVecRef, z3.FPRef)):
        point(E)
        E.put(o, off, t, v)
        return
    if isinstance(v, z3.FPRef):
        v = z3.fpToIEEEBV(v)
    for i in reversed(range(n)):
        point(E)
        b = (v >> (8 * i)) & 255 if isinstance(v, int) else S.simp(z3.Extract(8 * i + 7, 8 * i, v))
        E.put(o, off + i, ('i', 8), b)


# ------------------------------------------------------------------------------- harness primitives
def conc(E, v):
    return v if isinstance(v, int) else E.concretize(v, v.size())


def p_get(E, a, rt, at):
    return content(E, conc(E, a[0]) & 255)


def p_set(E, a, rt, at):
    k = conc(E, a[0]) & 255
    content(E, k)
    E.iov[k] = a[1]


def p_old(E, a, rt, at):
    return old(E, conc(E, a[0]) & 255)


def p_mark(E, a, rt, at):
    E.iolog = []
    E.ioold = dict(E.iov)


def p_live(E, a, rt, at):
    E.iolive.setdefault(conc(E, a[0]) & 255, 0)


def p_ready(E, a, rt, at):
    k = conc(E, a[0]) & 255
    E.iolive.setdefault(k, 0)
    E.ioready[k] = (conc(E, a[1]) & 255, conc(E, a[2]), 0)


def p_len(E, a, rt, at):
    return len(E.iolog)


def entry(E, i):
    i = conc(E, i)
    if i < 0 or i >= len(E.iolog):
        return (0, 0, 0, 0)
    return E.iolog[i]


def p_addr(E, a, rt, at):
    return entry(E, a[0])[1]


def p_value(E, a, rt, at):
    return entry(E, a[0])[2]


def p_iswrite(E, a, rt, at):
    return entry(E, a[0])[0]


def p_ion(E, a, rt, at):
    return entry(E, a[0])[3]


def p_reads(E, a, rt, at):
    k = conc(E, a[0]) & 255
    return sum(1 for w, x, _, _ in E.iolog if x == k and not w)


def p_writes(E, a, rt, at):
    k = conc(E, a[0]) & 255
    return sum(1 for w, x, _, _ in E.iolog if x == k and w)


def p_isr(E, a, rt, at):
    f = a[0]
    if not isinstance(f, S.FnPtr):
        raise S.EngineError('vp_isr needs a function')
    E.isr = (f.name, conc(E, a[1]))
    E.isrcount = 0


def p_noisr(E, a, rt, at):
    E.isr = None


def p_shared(E, a, rt, at):
    o = a[0].obj
    E.hooks.setdefault('shared', set()).add(o.name)


def p_point(E, a, rt, at):
    point(E)


def table(E):
    if not E.avr:
        return {}
    return dict(vp_io_get=p_get, vp_io_set=p_set, vp_io_old=p_old, vp_io_mark=p_mark, vp_io_live=p_live, vp_io_ready=p_ready,
                vp_io_len=p_len, vp_io_addr=p_addr, vp_io_value=p_value, vp_io_iswrite=p_iswrite, vp_io_enabled=p_ion,
                vp_io_reads=p_reads, vp_io_writes=p_writes, vp_isr=p_isr, vp_no_isr=p_noisr, vp_shared=p_shared,
                vp_point=p_point)


def asm(E, text, cons, args, rt):
    t = text.strip().lower()
    if t in ('', 'nop', 'sleep', 'wdr'):
        return None
    if E.avr and t in ('sei', 'cli'):
        if 'memory' not in cons:
            raise S.EngineError('%s without a memory clobber' % t)
        s = content(E, SREG)
        if t == 'sei':
            E.iov[SREG] = s | 0x80 if isinstance(s, int) else S.simp(s | z3.BitVecVal(0x80, 8))
        else:
            point(E)
            s = content(E, SREG)
            E.iov[SREG] = s & 0x7f if isinstance(s, int) else S.simp(s & z3.BitVecVal(0x7f, 8))
        return None
    raise S.EngineError('inline assembly %r' % text)
