"""Output streams.

A stream is an opaque object; the formatted-output primitives of the standard library (precompiled, so not encoded) append to
its list of tokens: a piece of text, a character, an integer or a real number.  Two streams hold the same output if, after
joining adjacent pieces of text, their tokens are the same one by one; numbers are compared as values by the solver.
"""
import z3
import sym as S


def start(E):
    E.streams = {}


def stream(E, p):
    s = E.streams.get(id(p.obj))
    if s is None:
        raise S.EngineError('output to a stream the harness did not make')
    return s


def vp_stream(E, a, rt, at):
    k = a[0]
    for o, toks, n in E.streams.values():
        if n == k:
            return S.Ptr(o, 0)
    o = E.new_obj('stream%d' % k, 1024)
    E.streams[id(o)] = (o, [], k)
    return S.Ptr(o, 0)


def text(E, p, s):
    t = stream(E, p)[1]
    if t and t[-1][0] == 'text':
        t[-1] = ('text', t[-1][1] + s)
    elif s:
        t.append(('text', s))
    return p


def chars(E, p, n):
    o, off = p.obj, p.off
    out = []
    for i in range(n):
        c = o.cells[off + i]
        if not isinstance(c[1], int):
            raise S.EngineError('symbolic characters in a text')
        out.append(chr(c[1]))
    return ''.join(out)


def h_cstr(E, a, rt, at):
    return text(E, a[0], E.cstr(a[1]))


def h_char(E, a, rt, at):
    c = a[1]
    if isinstance(c, int):
        return text(E, a[0], chr(c & 255))
    stream(E, a[0])[1].append(('char', S.bv(c, 8)))
    return a[0]


def h_write(E, a, rt, at):
    return text(E, a[0], chars(E, a[1], E.concretize(a[2], 64)))


def h_same(E, a, rt, at):
    return a[0]


def h_endl(E, a, rt, at):
    return text(E, a[0], '\n')


def h_manip(E, a, rt, at):
    f = a[1]
    name = getattr(f, 'name', None) or (getattr(f.obj, 'name', '') if isinstance(f, S.Ptr) else str(f))
    if 'endl' in name:
        return text(E, a[0], '\n')
    if 'flush' in name:
        return a[0]
    raise S.EngineError('stream manipulator ' + name)


def h_int(signed):
    def h(E, a, rt, at):
        v = a[1]
        w = at[1][1]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 72), z3.BitVecVal(0, 72))
        else:
            if v is S.UNDEF:
                raise S.Candidate('uninit', 'output of an uninitialised value', E.where())
            v = S.bv(v, w)
            v = z3.SignExt(72 - w, v) if signed else z3.ZeroExt(72 - w, v)
        stream(E, a[0])[1].append(('int', v))
        return a[0]
    return h


def number(E, p, v):
    if v is S.UNDEF:
        raise S.Candidate('uninit', 'output of an uninitialised value', E.where())
    stream(E, p)[1].append(('real', v))
    return p


def h_real(E, a, rt, at):
    v = a[1]
    if not E.real and at[1][1] == 32:
        v = z3.fpToFP(z3.RNE(), v, z3.Float64())
    return number(E, a[0], v)


def h_complex(w):
    def h(E, a, rt, at):
        p = a[0]
        n = w // 8
        re_ = E.load(a[1], ('f', w))
        im = E.load(S.Ptr(a[1].obj, a[1].off + n), ('f', w))
        text(E, p, '(')
        h_real(E, [p, re_], None, [None, ('f', w)])
        text(E, p, ',')
        h_real(E, [p, im], None, [None, ('f', w)])
        return text(E, p, ')')
    return h


def h_string(E, a, rt, at):
    o = a[1]
    d = E.load(o, ('ptr',))
    n = E.concretize(E.load(S.Ptr(o.obj, o.off + 8), ('i', 64)), 64)
    return text(E, a[0], chars(E, d, n))


def vp_same_output(E, a, rt, at):
    import intrinsics
    if E.pre is not None:
        return
    msg = a[2]
    x, y = stream(E, a[0])[1], stream(E, a[1])[1]
    sk = [[t if t[0] == 'text' else (t[0], None) for t in s] for s in (x, y)]
    if sk[0] != sk[1]:
        E.check(0, 'check', E.cstr(msg))
        return
    ints = [z3.BoolVal(True)]
    for u, v in zip(x, y):
        if u[0] == 'real':
            intrinsics.vp_eq(E, [u[1], v[1], msg], None, None)
        elif u[0] != 'text':
            ints.append(u[1] == v[1])
    E.check(S.simp(z3.And(*ints)), 'check', E.cstr(msg))


T = 'St11char_traitsIcE'


def table(E):
    t = {
        '_Z9vp_streami': vp_stream, 'vp_stream': vp_stream, 'vp_same_output': vp_same_output,
        '_ZNSo3putEc': h_char, '_ZNSo5writeEPKcl': h_write, '_ZNSo5flushEv': h_same,
        '_ZNSolsEPFRSoS_E': h_manip,
        '_ZSt16__ostream_insertIc%sERSt13basic_ostreamIT_T0_ES6_PKS3_l' % T: h_write,
        '_ZSt4endlIc%sERSt13basic_ostreamIT_T0_ES6_' % T: h_endl,
        '_ZSt5flushIc%sERSt13basic_ostreamIT_T0_ES6_' % T: h_same,
        '_ZStlsIc%sSaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE' % T: h_string,
    }
    for c in 'cah':
        t['_ZStlsI%sERSt13basic_ostreamIcT_ES5_%s' % (T, c)] = h_char
    for c in 'cah':
        t['_ZStlsI%sERSt13basic_ostreamIcT_ES5_PK%s' % (T, c)] = h_cstr
    for c in 'silx':
        t['_ZNSolsE' + c] = h_int(True)
    for c in 'btjmy':
        t['_ZNSolsE' + c] = h_int(False)
    t['_ZNSolsEd'] = t['_ZNSolsEf'] = h_real
    for c, w in (('d', 64), ('f', 32)):
        t['_ZStlsI%sc%sERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E' % (c, T)] = h_complex(w)
    return t
