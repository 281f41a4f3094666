"""Parser for the subset of textual LLVM 18 IR that clang -O0 emits for this code base.

Types are tuples:   ('i',n) ('ptr',) ('f',32|64) ('arr',n,t) ('st',(t,..),packed) ('void',) ('vec',n,t)
Operands are:       ('l',name) local, ('g',name) global/function, ('c',type,value) constant,
                    ('undef',type) ('zero',type) ('agg',type,[operands]) ('str',bytes) ('ce',op,...) constant expression
"""
import re
import struct

TOK = re.compile(r'''
  (?P<ws>[ \t]+|;[^\n]*)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w.]*(?:\([^()]*\))?)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KHLMR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+)
 |(?P<word>[A-Za-z_$][\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*|:])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('token at %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


PARAM_ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone
returned nest immarg swiftself swifterror nofree inalloca noalias nounwind allocalign allocptr writable
dead_on_unwind'''.split())
PARAM_ATTRS_ARG = set('dereferenceable dereferenceable_or_null align sret byval byref elementtype nofpclass'.split())
FMF = set('nnan ninf nsz arcp contract afn reassoc fast'.split())
LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr
weak_odr external dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr
thread_local externally_initialized'''.split())


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'vararg', 'defined', 'text', 'mod', 'slots')


class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'external')


def unq(name):
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


def decode_str(t):
    b = bytearray()
    i = 0
    while i < len(t):
        if t[i] == '\\':
            if t[i + 1] == '\\':
                b.append(92)
                i += 2
                continue
            b.append(int(t[i + 1:i + 3], 16))
            i += 3
        else:
            b += t[i].encode('latin-1', 'replace')
            i += 1
    return bytes(b)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.layout = ''
        self.triple = ''
        self._parse(text)

    # ------------------------------------------------------------- top level
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!$':
                continue
            if ln.startswith('target datalayout'):
                self.layout = ln.split('"')[1]
            elif ln.startswith('target triple'):
                self.triple = ln.split('"')[1]
            elif ln[0] == '%':
                tk = tokenize(ln)
                p = P(self, tk)
                nm = unq(p.next()[1])
                p.expect('=')
                p.expect('type')
                if p.peek()[1] == 'opaque':
                    self.types[nm] = ('st', (), False)
                else:
                    self.types[nm] = p.type()
            elif ln[0] == '@':
                self._global(ln)
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._header(ln, body)
            elif ln.startswith('declare'):
                self._header(ln, None)

    def _global(self, ln):
        p = P(self, tokenize(ln))
        nm = unq(p.next()[1])
        p.expect('=')
        g = Global()
        g.name = nm
        g.external = False
        while p.peek()[1] in LINK or p.peek()[1] == 'addrspace':
            w = p.next()[1]
            if w in ('external', 'extern_weak'):
                g.external = True
            if w in ('addrspace', 'thread_local') and p.peek()[1] == '(':
                p.skip_parens()
        w = p.next()[1]
        if w == 'alias':
            p.type()
            p.expect(',')
            t, v = p.typed()
            self.aliases[nm] = v[1]
            return
        g.const = (w == 'constant')
        g.type = p.type()
        g.init = None
        if not g.external:
            g.init = p.value(g.type)
        self.globals[nm] = g

    def _header(self, ln, body):
        p = P(self, tokenize(ln))
        p.next()
        while True:
            k, t = p.peek()
            if t in LINK or t in PARAM_ATTRS or t.endswith('cc') and k == 'word':
                p.next()
            elif t in PARAM_ATTRS_ARG:
                p.next()
                if p.peek()[0] == 'num':
                    p.next()
                else:
                    p.skip_parens()
            else:
                break
        f = Func()
        f.mod = self
        f.ret = p.type()
        f.name = unq(p.next()[1])
        f.vararg = False
        f.params = []
        f.slots = None
        p.expect('(')
        idx = 0
        while p.peek()[1] != ')':
            if p.peek()[0] == 'dots':
                p.next()
                f.vararg = True
            else:
                t = p.type()
                at = p.param_attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = unq(p.next()[1])
                else:
                    nm = str(idx)
                f.params.append((t, nm, at))
                idx += 1
            if p.peek()[1] == ',':
                p.next()
        f.defined = body is not None
        f.text = body
        f.blocks = None
        self.funcs[f.name] = f

    # ------------------------------------------------------------- bodies (parsed lazily)
    def body(self, f):
        if f.blocks is not None:
            return f
        blocks = {}
        cur = None
        # number of the implicit entry label
        first = None
        it = iter(f.text)
        for ln in it:
            if not ln.strip():
                continue
            if ln[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                if m:
                    nm = m.group(1)
                    if nm.startswith('"'):
                        nm = nm[1:-1]
                    cur = []
                    blocks[nm] = cur
                    if first is None:
                        first = nm
                    continue
                if ln.strip().startswith(';'):
                    continue
            if cur is None:
                cur = []
                first = str(len(f.params))
                blocks[first] = cur
            s = ln
            if ' switch ' in s and '[' in s and ']' not in s:
                while True:
                    x = next(it)
                    s += ' ' + x.strip()
                    if x.strip().startswith(']'):
                        break
            try:
                ins = self._ins(s)
            except ParseError as e:
                raise ParseError('%s\n  in %s: %s' % (e, f.name, s))
            if ins is not None:
                cur.append(ins)
        f.blocks = blocks
        f.entry = first
        return f

    def _ins(self, s):
        p = P(self, tokenize(s))
        if not p.t:
            return None
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = unq(p.next()[1])
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while p.peek()[1] in FMF or p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.append(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t, a, b, tuple(flags))
        if op == 'fneg':
            while p.peek()[1] in FMF:
                p.next()
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in FMF:
                p.next()
            pr = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (op, dst, pr, t, a, b)
        if op == 'alloca':
            if p.peek()[1] == 'inalloca':
                p.next()
            t = p.type()
            cnt = None
            while p.peek()[1] == ',':
                p.next()
                if p.peek()[1] in ('align', 'addrspace'):
                    w = p.next()[1]
                    if w == 'align':
                        p.next()
                    else:
                        p.skip_parens()
                else:
                    cnt = p.typed()
            return ('alloca', dst, t, cnt)
        if op == 'load':
            vol = False
            while p.peek()[1] in ('atomic', 'volatile'):
                vol |= p.next()[1] == 'volatile'
            t = p.type()
            p.expect(',')
            pt, a = p.typed()
            return ('load', dst, t, a, vol)
        if op == 'store':
            vol = False
            while p.peek()[1] in ('atomic', 'volatile'):
                vol |= p.next()[1] == 'volatile'
            t, v = p.typed()
            p.expect(',')
            pt, a = p.typed()
            return ('store', None, t, v, a, vol)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.expect(',')
            pt, a = p.typed()
            idx = []
            while p.peek()[1] == ',':
                p.next()
                if p.peek()[0] == 'meta':
                    break
                idx.append(p.typed())
            return ('gep', dst, t, a, idx)
        if op in ('sext', 'zext', 'trunc', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast',
                  'ptrtoint', 'inttoptr', 'addrspacecast'):
            while p.peek()[1] in FMF or p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            t, v = p.typed()
            p.expect('to')
            t2 = p.type()
            return ('cast', dst, op, t, v, t2)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                return ('br', None, unq(p.next()[1]))
            t, c = p.typed()
            p.expect(',')
            p.expect('label')
            a = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            b = unq(p.next()[1])
            return ('cbr', None, c, a, b)
        if op == 'switch':
            t, v = p.typed()
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cases = []
            while p.peek()[1] != ']':
                ct, cv = p.typed()
                p.expect(',')
                p.expect('label')
                cases.append((cv[2], unq(p.next()[1])))
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            t = p.type()
            if t == ('void',):
                return ('ret', None, t, None)
            return ('ret', None, t, p.value(t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((unq(p.next()[1]), v))
                p.expect(']')
                if p.peek()[1] == ',':
                    p.next()
                else:
                    break
            return ('phi', dst, t, dict(inc))
        if op == 'select':
            while p.peek()[1] in FMF:
                p.next()
            ct, c = p.typed()
            p.expect(',')
            t, a = p.typed()
            p.expect(',')
            t2, b = p.typed()
            return ('select', dst, t, c, a, b)
        if op in ('call', 'invoke'):
            while True:
                k, t = p.peek()
                if t in FMF or t in PARAM_ATTRS or (k == 'word' and (t.endswith('cc') or t.startswith('cc'))):
                    p.next()
                elif t in PARAM_ATTRS_ARG:
                    p.next()
                    if p.peek()[0] == 'num':
                        p.next()
                    else:
                        p.skip_parens()
                elif t == 'addrspace':
                    p.next()
                    p.skip_parens()
                else:
                    break
            rt = p.type()
            if p.peek()[1] == '(':      # function type for varargs
                p.skip_parens()
            if p.peek()[1] == 'asm':
                p.next()
                while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                    p.next()
                a = p.next()[1]
                p.expect(',')
                b = p.next()[1]
                callee = ('asm', a.strip('"'), b.strip('"'))
            else:
                callee = p.value(('ptr',))
            p.expect('(')
            args = []
            while p.peek()[1] != ')':
                if p.peek()[1] == 'metadata':
                    p.next()
                    depth = 0
                    while not (depth == 0 and p.peek()[1] in (',', ')')):
                        w = p.next()[1]
                        depth += (w in '([{') - (w in ')]}')
                    args.append((None, None, ()))
                else:
                    t = p.type()
                    at = p.param_attrs()
                    args.append((t, p.value(t), at))
                if p.peek()[1] == ',':
                    p.next()
            p.expect(')')
            return ('call', dst, rt, callee, args)
        if op == 'extractvalue':
            t, v = p.typed()
            idx = []
            while p.peek()[1] == ',':
                p.next()
                idx.append(int(p.next()[1]))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t, v = p.typed()
            p.expect(',')
            t2, e = p.typed()
            idx = []
            while p.peek()[1] == ',':
                p.next()
                idx.append(int(p.next()[1]))
            return ('insertvalue', dst, t, v, e, idx)
        if op == 'freeze':
            t, v = p.typed()
            return ('freeze', dst, t, v)
        if op == 'fence':
            return ('nop', None)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            args = [p.typed()]
            while p.peek()[1] == ',':
                p.next()
                args.append(p.typed())
            return (op, dst, args)
        if op == 'va_arg':
            raise ParseError('va_arg')
        raise ParseError('instruction ' + op)


class P:
    def __init__(self, mod, toks):
        self.mod = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        if self.i >= len(self.t):
            raise ParseError('unexpected end')
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise ParseError('expected %r, got %r' % (s, x[1]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            w = self.next()[1]
            if w == '(':
                d += 1
            elif w == ')':
                d -= 1

    def param_attrs(self):
        at = []
        while True:
            k, t = self.peek()
            if k == 'word' and t in PARAM_ATTRS:
                self.next()
                at.append(t)
            elif k == 'word' and t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[0] == 'num':
                    self.next()
                elif t in ('byval', 'sret'):
                    self.expect('(')
                    ty = self.type()
                    self.expect(')')
                    at.append((t, ty))
                else:
                    self.skip_parens()
            elif k == 'str':
                self.next()
                if self.peek()[1] == '=':
                    self.next()
                    self.next()
            else:
                return tuple(at)

    def type(self):
        k, t = self.next()
        if k == 'word':
            if t == 'ptr':
                r = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    self.next()
                    self.skip_parens()
            elif t == 'void':
                r = ('void',)
            elif t == 'float':
                r = ('f', 32)
            elif t == 'double':
                r = ('f', 64)
            elif t == 'x86_fp80':
                r = ('f', 80)
            elif t == 'half':
                r = ('f', 16)
            elif t == 'fp128':
                r = ('f', 128)
            elif t == 'token':
                r = ('token',)
            elif t == 'metadata':
                r = ('metadata',)
            elif t == 'label':
                r = ('label',)
            elif re.match(r'i\d+$', t):
                r = ('i', int(t[1:]))
            else:
                raise ParseError('type ' + t)
        elif k == 'loc':
            r = ('n', unq(t))
        elif t == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = self._struct('}', False)
        elif t == '<':
            if self.peek()[1] == '{':
                self.next()
                r = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        else:
            raise ParseError('type %r' % t)
        return r

    def _struct(self, close, packed):
        fs = []
        while self.peek()[1] != close:
            fs.append(self.type())
            if self.peek()[1] == ',':
                self.next()
        self.next()
        return ('st', tuple(fs), packed)

    def typed(self):
        t = self.type()
        self.param_attrs()
        return t, self.value(t)

    def value(self, t):
        k, s = self.next()
        if k == 'loc':
            return ('l', unq(s))
        if k == 'glob':
            return ('g', unq(s))
        if k == 'num':
            if t[0] == 'f':
                return ('c', t, float(s))
            return ('c', t, int(s) & ((1 << t[1]) - 1))
        if k == 'hex':
            if s[2] in 'KHLMR':
                if s[2] == 'K':
                    v = int(s[3:], 16)
                    sgn = -1 if v >> 79 else 1
                    ex = (v >> 64) & 0x7fff
                    m = v & ((1 << 64) - 1)
                    from fractions import Fraction
                    fr = Fraction(m) * (Fraction(2) ** (ex - 16383 - 63)) * sgn if m else Fraction(0)
                    return ('c', t, fr)
                raise ParseError('hex float ' + s)
            return ('c', t, struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0])
        if k == 'str':
            return ('str', decode_str(s[2:-1]))
        if k == 'word':
            if s == 'true':
                return ('c', t, 1)
            if s == 'false':
                return ('c', t, 0)
            if s == 'null':
                return ('c', ('ptr',), 0)
            if s in ('undef', 'poison'):
                return ('undef', t)
            if s in ('zeroinitializer', 'none'):
                return ('zero', t)
            if s == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        self.skip_parens()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt, base = self.typed()
                idx = []
                while self.peek()[1] == ',':
                    self.next()
                    if self.peek()[1] == 'inrange':
                        self.next()
                    idx.append(self.typed())
                self.expect(')')
                return ('ce', 'gep', bt, base, idx)
            if s in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                ft, v = self.typed()
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('ce', 'cast', s, ft, v, tt)
            if s in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                ft, a = self.typed()
                self.expect(',')
                ft, b = self.typed()
                self.expect(')')
                return ('ce', 'bin', s, ft, a, b)
            if s == 'icmp':
                pr = self.next()[1]
                self.expect('(')
                ft, a = self.typed()
                self.expect(',')
                ft, b = self.typed()
                self.expect(')')
                return ('ce', 'icmp', pr, ft, a, b)
            raise ParseError('value ' + s)
        if s in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[s]
            packed = False
            if s == '<' and self.peek()[1] == '{':
                self.next()
                close = '}'
                packed = True
            vals = []
            while self.peek()[1] != close:
                vals.append(self.typed()[1])
                if self.peek()[1] == ',':
                    self.next()
            self.next()
            if packed:
                self.expect('>')
            return ('agg', t, vals)
        raise ParseError('value %r' % s)
