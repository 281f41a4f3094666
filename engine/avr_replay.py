"""Replay on the microcontroller: the harness is compiled by avr-g++ for the ATmega328P and the machine code is run by
the small instruction-set interpreter below.  Calls of the harness primitives (vp_*) are intercepted."""
import os
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SREG = 0x5f
QUIET = (0x5d, 0x5e, 0x5f)
MAXSTEPS = 400000


class Stop(Exception):
    def __init__(self, st, msg=''):
        Exception.__init__(self, msg)
        self.st = st
        self.msg = msg


class Cpu:
    def __init__(self, flash, stubs, inputs):
        self.flash = flash + b'\0\0' * 16
        self.n = len(flash)
        self.r = [0] * 32
        self.f = [0] * 8                 # C Z N V S H T I
        self.pc = 0
        self.sp = 0xfff0
        self.m = bytearray(0x10000)
        self.stubs = stubs
        self.inp = inputs
        self.seen = {}
        self.io = {}
        self.iolive = {}
        self.ioready = {}
        self.old = {}
        self.log = []
        self.steps = 0
        self.isr = None
        self.isr_at = ()
        self.isr_count = 0
        self.inisr = False
        self.checks = 0
        self.started = False
        self.quiet = False

    # ---- inputs
    def value(self, n):
        k = self.seen.get(n, 0)
        self.seen[n] = k + 1
        if k:
            n = '%s#%d' % (n, k)
        return self.inp.get(n, '0')

    # ---- registers of the hardware
    def content(self, a):
        if a == SREG:
            return self.io.get(a, 0) & 0x7f | (self.f[7] << 7)
        if a == 0x5d:
            return self.sp & 255
        if a == 0x5e:
            return self.sp >> 8
        if a not in self.io:
            self.io[a] = int(self.inp.get('io_%02x' % a, '0')) & 255
        return self.io[a]

    def setio(self, a, v):
        if a == SREG:
            self.f[7] = v >> 7
            self.io[a] = v
        elif a == 0x5d:
            self.sp = self.sp & 0xff00 | v
        elif a == 0x5e:
            self.sp = self.sp & 0xff | v << 8
        else:
            self.io[a] = v

    def ld(self, a):
        if a >= 0x100:
            return self.m[a]
        if a in self.iolive:
            self.content(a)
            self.io[a] = int(self.inp.get('io_%02x.%d' % (a, self.iolive[a]), '0')) & 255
            self.iolive[a] += 1
            if a in self.ioready:
                m, k, since = self.ioready[a]
                self.ioready[a] = (m, k, since + 1)
                if since >= k:
                    self.io[a] |= m
        v = self.content(a)
        if a not in QUIET:
            self.log.append((0, a, v, self.f[7]))
        return v

    def st(self, a, v):
        if a >= 0x100:
            self.m[a] = v
            return
        self.content(a)
        self.setio(a, v)
        if a in self.ioready:
            self.ioready[a] = self.ioready[a][:2] + (0,)
        if a not in QUIET:
            self.log.append((1, a, v, self.f[7]))

    def push(self, v):
        self.m[self.sp] = v
        self.sp = (self.sp - 1) & 0xffff
        if self.sp < 0x200:
            raise Stop('crash', 'stack overflow')

    def pop(self):
        self.sp = (self.sp + 1) & 0xffff
        return self.m[self.sp]

    def pushpc(self, pc):
        self.push(pc & 255)
        self.push(pc >> 8)

    def poppc(self):
        h = self.pop()
        return h << 8 | self.pop()

    def w(self, i):
        return self.r[i] | self.r[i + 1] << 8

    def setw(self, i, v):
        self.r[i] = v & 255
        self.r[i + 1] = v >> 8 & 255

    def fetch(self, pc):
        if pc * 2 + 1 >= len(self.flash):
            raise Stop('crash', 'program counter outside the program')
        return self.flash[2 * pc] | self.flash[2 * pc + 1] << 8

    def size(self, pc):
        op = self.fetch(pc)
        return 2 if op & 0xfc0f == 0x9000 or op & 0xfe0c == 0x940c else 1

    # ---- flags
    def logic(self, v):
        f = self.f
        f[3] = 0
        f[2] = v >> 7
        f[1] = int(v == 0)
        f[4] = f[2]

    def add(self, a, b, c):
        s = a + b + c
        v = s & 255
        f = self.f
        f[0] = s >> 8
        f[5] = int((a & 15) + (b & 15) + c > 15)
        f[3] = ((a ^ v) & (b ^ v)) >> 7 & 1
        f[2] = v >> 7
        f[1] = int(v == 0)
        f[4] = f[2] ^ f[3]
        return v

    def sub(self, a, b, c, keepz=False):
        s = a - b - c
        v = s & 255
        f = self.f
        f[0] = int(s < 0)
        f[5] = int((a & 15) - (b & 15) - c < 0)
        f[3] = ((a ^ b) & (a ^ v)) >> 7 & 1
        f[2] = v >> 7
        f[1] = int(v == 0) & (f[1] if keepz else 1)
        f[4] = f[2] ^ f[3]
        return v

    # ---- run
    def call(self, addr):
        """run the function at word address addr until it returns"""
        end = 0xfffe
        self.pushpc(end)
        self.pc = addr
        self.until(end)

    def until(self, end):
        while self.pc != end:
            if self.started and not self.inisr and self.isr and self.isr_at and self.isr_count < len(self.isr_at) and \
                    self.f[7] and self.steps - self.base >= self.isr_at[self.isr_count]:
                self.interrupt()
            self.step()

    def interrupt(self):
        self.isr_count += 1
        keep = list(self.r), list(self.f), self.pc, self.sp
        self.inisr = True
        self.f[7] = 0
        self.call(self.isr)
        self.inisr = False
        self.r, self.f, self.pc, self.sp = keep

    def step(self):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Stop('hang', 'no end after %d instructions' % MAXSTEPS)
        pc = self.pc
        s = self.stubs.get(pc)
        if s is not None:
            s(self)
            self.pc = self.poppc()
            return
        op = self.fetch(pc)
        r, f = self.r, self.f
        self.pc = pc + 1
        h = op >> 12
        d5 = op >> 4 & 31
        r5 = op & 15 | op >> 5 & 16
        d4 = 16 + (op >> 4 & 15)
        K = op & 15 | op >> 4 & 0xf0
        if h == 0:
            k = op >> 8
            if op == 0:
                return
            if k == 1:
                a, b = (op >> 4 & 15) * 2, (op & 15) * 2
                r[a], r[a + 1] = r[b], r[b + 1]
                return
            if k in (2, 3):
                if k == 2:
                    a, b, kind = r[16 + (op >> 4 & 15)], r[16 + (op & 15)], 'ss'
                    sh = 0
                else:
                    a, b = r[16 + (op >> 4 & 7)], r[16 + (op & 7)]
                    sel = op >> 6 & 2 | op >> 3 & 1
                    kind = ('su', 'uu', 'ss', 'su')[sel]
                    sh = int(sel != 0)
                if kind[0] == 's' and a > 127:
                    a -= 256
                if kind[1] == 's' and b > 127:
                    b -= 256
                p = (a * b) & 0xffff
                f[0] = p >> 15
                p = p << sh & 0xffff
                f[1] = int(p == 0)
                r[0], r[1] = p & 255, p >> 8
                return
            k = op >> 10
            if k == 1:
                self.sub(r[d5], r[r5], f[0], True)
            elif k == 2:
                r[d5] = self.sub(r[d5], r[r5], f[0], True)
            elif k == 3:
                r[d5] = self.add(r[d5], r[r5], 0)
            return
        if h == 1:
            k = op >> 10 & 3
            if k == 0:
                if r[d5] == r[r5]:
                    self.pc += self.size(self.pc)
            elif k == 1:
                self.sub(r[d5], r[r5], 0)
            elif k == 2:
                r[d5] = self.sub(r[d5], r[r5], 0)
            else:
                r[d5] = self.add(r[d5], r[r5], f[0])
            return
        if h == 2:
            k = op >> 10 & 3
            if k == 0:
                r[d5] &= r[r5]
            elif k == 1:
                r[d5] ^= r[r5]
            elif k == 2:
                r[d5] |= r[r5]
            else:
                r[d5] = r[r5]
                return
            self.logic(r[d5])
            return
        if h == 3:
            self.sub(r[d4], K, 0)
            return
        if h == 4:
            r[d4] = self.sub(r[d4], K, f[0], True)
            return
        if h == 5:
            r[d4] = self.sub(r[d4], K, 0)
            return
        if h == 6:
            r[d4] |= K
            self.logic(r[d4])
            return
        if h == 7:
            r[d4] &= K
            self.logic(r[d4])
            return
        if h in (8, 10):
            q = op & 7 | op >> 7 & 0x18 | op >> 8 & 0x20
            a = (self.w(28 if op & 8 else 30) + q) & 0xffff
            if op & 0x200:
                self.st(a, r[d5])
            else:
                r[d5] = self.ld(a)
            return
        if h == 9:
            self.nine(op, d5, r5)
            return
        if h == 11:
            a = 0x20 + (op & 15 | op >> 5 & 0x30)
            if op & 0x800:
                self.st(a, r[d5])
            else:
                r[d5] = self.ld(a)
            return
        if h in (12, 13):
            k = op & 0xfff
            if k > 0x7ff:
                k -= 0x1000
            if h == 13:
                self.pushpc(self.pc)
            self.pc = (self.pc + k) & 0xffff if self.n <= 0x20000 else self.pc + k
            if op == 0xcfff and not self.isr:
                raise Stop('hang', 'endless loop')
            return
        if h == 14:
            r[d4] = K
            return
        k = op >> 10 & 3
        b = op & 7
        if k in (0, 1):
            o = op >> 3 & 0x7f
            if o > 63:
                o -= 128
            if f[b] == (1 - k):
                self.pc += o
            return
        if k == 2:
            if op & 0x200:
                f[6] = r[d5] >> b & 1
            else:
                r[d5] = r[d5] & ~(1 << b) & 255 | f[6] << b
            return
        if (r[d5] >> b & 1) == (op >> 9 & 1):
            self.pc += self.size(self.pc)

    def nine(self, op, d, r5):
        r, f = self.r, self.f
        k = op >> 9 & 7
        lo = op & 15
        if k == 0 or k == 1:
            store = k == 1
            if lo == 0:
                a = self.fetch(self.pc)
                self.pc += 1
                if store:
                    self.st(a, r[d])
                else:
                    r[d] = self.ld(a)
                return
            if lo == 15:
                if store:
                    self.push(r[d])
                else:
                    r[d] = self.pop()
                return
            if not store and lo in (4, 5, 6, 7):
                z = self.w(30)
                r[d] = self.flash[z] if z < len(self.flash) else 0xff
                if lo & 1:
                    self.setw(30, z + 1)
                return
            base = {1: 30, 2: 30, 9: 28, 10: 28, 12: 26, 13: 26, 14: 26}.get(lo)
            if base is None:
                raise Stop('error', 'instruction %04x' % op)
            a = self.w(base)
            if lo in (2, 10, 14):
                a = (a - 1) & 0xffff
                self.setw(base, a)
            if store:
                v = r[d]
                self.st(a, v)
            else:
                r[d] = self.ld(a)
            if lo in (1, 9, 13):
                self.setw(base, a + 1)
            return
        if k == 2:
            if lo == 8 and op & 0x100 == 0:
                f[op >> 4 & 7] = int(not op & 0x80)
                return
            if op == 0x9508 or op == 0x9518:
                self.pc = self.poppc()
                if op == 0x9518:
                    f[7] = 1
                return
            if op in (0x9588, 0x95a8, 0x9598):
                return
            if op == 0x95c8:
                r[0] = self.flash[self.w(30)]
                return
            if op == 0x9409 or op == 0x9509:
                if op & 0x100:
                    self.pushpc(self.pc)
                self.pc = self.w(30)
                return
            if lo & 12 == 12:
                a = self.fetch(self.pc) | (op & 1) << 16 | (op >> 4 & 31) << 17
                self.pc += 1
                if lo & 2:
                    self.pushpc(self.pc)
                self.pc = a
                return
            v = r[d]
            if lo == 0:
                v = 255 - v
                self.logic(v)
                f[0] = 1
            elif lo == 1:
                v = self.sub(0, v, 0)
            elif lo == 2:
                v = v >> 4 | (v & 15) << 4
            elif lo == 3:
                v = (v + 1) & 255
                f[3] = int(v == 0x80)
                f[2] = v >> 7
                f[1] = int(v == 0)
                f[4] = f[2] ^ f[3]
            elif lo == 10:
                v = (v - 1) & 255
                f[3] = int(v == 0x7f)
                f[2] = v >> 7
                f[1] = int(v == 0)
                f[4] = f[2] ^ f[3]
            elif lo in (5, 6, 7):
                c = v & 1
                v = v >> 1 | {5: v & 0x80, 6: 0, 7: f[0] << 7}[lo]
                f[0] = c
                f[2] = v >> 7
                f[1] = int(v == 0)
                f[3] = f[2] ^ f[0]
                f[4] = f[2] ^ f[3]
            else:
                raise Stop('error', 'instruction %04x' % op)
            r[d] = v
            return
        if k == 3:
            K = op & 15 | op >> 2 & 0x30
            b = 24 + 2 * (op >> 4 & 3)
            a = self.w(b)
            if op & 0x100:
                s = a - K
                v = s & 0xffff
                f[3] = (a & ~v) >> 15 & 1
                f[0] = int(s < 0)
            else:
                s = a + K
                v = s & 0xffff
                f[3] = (v & ~a) >> 15 & 1
                f[0] = s >> 16
            f[2] = v >> 15
            f[1] = int(v == 0)
            f[4] = f[2] ^ f[3]
            self.setw(b, v)
            return
        if k in (4, 5):
            a = 0x20 + (op >> 3 & 31)
            b = op & 7
            t = op >> 8 & 3
            v = self.ld(a)
            if t == 0:
                self.st(a, v & ~(1 << b) & 255)
            elif t == 2:
                self.st(a, v | 1 << b)
            elif (v >> b & 1) == (t >> 1):
                self.pc += self.size(self.pc)
            return
        p = r[d] * r[r5]
        r[0], r[1] = p & 255, p >> 8
        f[0] = p >> 15
        f[1] = int(p == 0)

    def cstr(self, a):
        e = self.m.index(0, a)
        return self.m[a:e].decode(errors='replace')

    def f32(self, i):
        return struct.unpack('<f', bytes(self.r[i:i + 4]))[0]

    def setf32(self, v):
        try:
            b = struct.pack('<f', v)
        except OverflowError:
            b = struct.pack('<f', float('inf') if v > 0 else float('-inf'))
        self.r[22:26] = list(b)


# ------------------------------------------------------------------------------- primitives
def fval(c, s):
    if s.startswith('bits:'):
        return struct.unpack('<f', struct.pack('<I', int(s[5:]) & 0xffffffff))[0]
    return float(s)


def close(a, b):
    return a == b or abs(a - b) <= 1e-4 * (1 + abs(a) + abs(b))


def s_int(c):
    bits = c.w(22)
    v = int(c.value(c.cstr(c.w(24)))) & ((1 << bits) - 1)
    c.r[18:26] = [v >> (8 * i) & 255 for i in range(8)]


def s_real(c):
    c.setf32(fval(c, c.value(c.cstr(c.w(24)))))


def s_choose(c):
    c.setw(24, int(c.value(c.cstr(c.w(24)))))


def s_assume(c):
    if not c.r[24] & 1:
        raise Stop('assume')


def s_check(c):
    c.checks += 1
    if not c.r[24] & 1 and not c.quiet:
        raise Stop('fail', 'VPFAIL ' + c.cstr(c.w(22)))


def s_eq(c):
    c.checks += 1
    a, b = c.f32(22), c.f32(18)
    if not close(a, b) and not c.quiet:
        raise Stop('fail', 'got %r, required %r\nVPFAIL %s' % (a, b, c.cstr(c.w(16))))


def s_le(c):
    c.checks += 1
    a, b = c.f32(22), c.f32(18)
    if not (a <= b or close(a, b)) and not c.quiet:
        raise Stop('fail', 'got %r > %r\nVPFAIL %s' % (a, b, c.cstr(c.w(16))))


def s_fail(c):
    if c.quiet:
        return
    raise Stop('fail', 'VPFAIL ' + c.cstr(c.w(24)))


def s_end(c):
    raise Stop('ok')


def s_nop(c):
    pass


def s_get(c):
    a = c.r[24]
    if a in (0x5d, 0x5e):
        v = (c.sp + 2) & 0xffff
        c.r[24] = v & 255 if a == 0x5d else v >> 8
    else:
        c.r[24] = c.content(a)


def s_set(c):
    c.content(c.r[24])
    c.setio(c.r[24], c.r[22])


def s_mark(c):
    c.log = []
    c.old = dict(c.io)


def s_old(c):
    a = c.r[24]
    c.r[24] = c.old[a] if a in c.old else int(c.inp.get('io_%02x' % a, '0')) & 255


def s_live(c):
    c.iolive.setdefault(c.r[24], 0)


def s_ready(c):
    c.iolive.setdefault(c.r[24], 0)
    c.ioready[c.r[24]] = (c.r[22], c.r[20], 0)


def s_len(c):
    c.setw(24, len(c.log))


def ent(k):
    def s(c):
        i = c.w(24)
        c.r[24] = c.log[i][k] if i < len(c.log) else 0
    return s


def count(w):
    def s(c):
        a = c.r[24]
        c.setw(24, sum(1 for x, y, _, _ in c.log if y == a and x == w))
    return s


def s_isr(c):
    c.isr = c.w(24)
    c.isr_max = c.w(22)
    c.isr_count = 0
    c.started = True
    c.base = c.steps


def s_noisr(c):
    c.isr_end = c.steps - c.base
    c.isr = None


STUBS = dict(vp_sym_int=s_int, vp_sym_real=s_real, vp_sym_f32=s_real, vp_choose=s_choose, vp_assume=s_assume,
             vp_check=s_check, vp_eq=s_eq, vp_le=s_le, vp_fail=s_fail, vp_end=s_end, vp_note=s_nop, vp_pin=s_nop,
             vp_io_get=s_get, vp_io_set=s_set, vp_io_mark=s_mark, vp_io_old=s_old, vp_io_live=s_live, vp_io_ready=s_ready,
             vp_io_len=s_len, vp_io_addr=ent(1), vp_io_value=ent(2), vp_io_iswrite=ent(0), vp_io_enabled=ent(3),
             vp_io_reads=count(0), vp_io_writes=count(1), vp_isr=s_isr, vp_no_isr=s_noisr, vp_shared=s_nop,
             vp_point=s_nop)


# ------------------------------------------------------------------------------- build and run
_built = {}


def build(u, names, dst, work, opt='-Os'):
    import check
    key = (work, dst, opt)
    if key in _built:
        return _built[key]
    base = os.path.join(work, dst + '.avr')
    src = os.path.join(work, dst + '.cpp')
    if not os.path.exists(src):
        with open(src, 'w') as fh:
            fh.write(u.source(names))
    stub = os.path.join(work, 'stubs.cpp')
    if not os.path.exists(stub):
        with open(stub, 'w') as fh:
            for s in STUBS:
                fh.write('extern "C" __attribute__((noinline,used)) void %s() { __asm__ volatile( "nop" ::: "memory" ); }\n' % s)
            fh.write('int main() {}\n')
    elf = base + '.elf'
    r = check.sh(['avr-g++', '-mmcu=atmega328p', opt, '-std=gnu++17', '-w', '-I' + check.REPO + '/include',
                  '-I' + check.HERE + '/harness', '-fno-exceptions', '-fno-threadsafe-statics', '-fno-ipa-icf',
                  '-DF_CPU_HZ=16000000L', '-DF_CPU=16000000L', '-Wl,--defsym=__stack=0xfff0', '-Wl,--defsym=__TEXT_REGION_LENGTH__=128K'] + u.flags +
                 [src, stub, '-o', elf, '-lm'])
    if r.returncode != 0:
        _built[key] = (None, None, r.stdout)
        return _built[key]
    subprocess.run(['avr-objcopy', '-O', 'binary', '-R', '.eeprom', elf, base + '.bin'], check=True)
    syms = {}
    for ln in subprocess.run(['avr-nm', elf], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
        p = ln.split()
        if len(p) == 3 and p[1] in 'TtWw':
            syms[p[2]] = int(p[0], 16) // 2
        if len(p) == 3 and p[2] == '__data_start':
            syms['__data_start'] = int(p[0], 16) & 0xffff
    # the start-up code cannot reach the initial data behind 64 kB of code: taken from the file
    subprocess.run(['avr-objcopy', '-O', 'binary', '-j', '.data', elf, base + '.data'], check=True)
    syms['__data'] = open(base + '.data', 'rb').read()
    _built[key] = (open(base + '.bin', 'rb').read(), syms, '')
    return _built[key]


def execute(flash, syms, fn, inputs, isr_at=(), earlier=None):
    stubs = {syms[n]: s for n, s in STUBS.items() if n in syms}
    c = Cpu(flash, stubs, inputs)
    c.isr_at = isr_at
    try:
        # the start-up code sets up the data section and ends by calling main
        main = syms['main']
        while c.pc != main:
            c.step()
        d = syms.get('__data_start', 0x100)
        c.m[d:d + len(syms['__data'])] = syms['__data']
        if earlier is not None:        # an earlier use of the library; the variables keep what it leaves
            x = Cpu(flash, stubs, earlier)
            x.m = c.m
            x.r = list(c.r)
            x.quiet = True
            x.sp = 0xfff0
            x.f[7] = int(earlier.get('io_5f', '0')) >> 7 & 1
            x.io[SREG] = int(earlier.get('io_5f', '0')) & 255
            try:
                x.call(syms[fn])
            except Stop:
                pass
        c.sp = 0xfff0
        c.io.clear()
        c.log = []
        c.steps = 0
        c.f[7] = int(inputs.get('io_5f', '0')) >> 7 & 1
        c.io[SREG] = int(inputs.get('io_5f', '0')) & 255
        c.call(syms[fn])
        return 'ok', 'VPOK %d' % c.checks, c
    except Stop as e:
        return e.st, e.msg, c
    except (IndexError, ValueError, KeyError) as e:
        return 'crash', '%s: %s' % (type(e).__name__, e), c


def replay(u, fn, dst, c, work, tag):
    # first as avr-g++ -Os compiles it, then without optimisation
    st = 'ok'
    out = ''
    for opt in ('-Os', '-O1'):
        flash, syms, log = build(u, u.active, dst, work, opt)
        name = fn
        if flash is None or len(flash) > 0x1fff0:
            flash, syms, log = build(u, [fn], dst + '.' + fn, work, opt)
        if flash is None:
            return 'error', 'avr-g++ failed: ' + log[-1500:]
        st, out, cpu = execute(flash, syms, name, c['inputs'], (), c.get('earlier'))
        if st not in ('ok',):
            return st, out
        if cpu.started:
            # an interrupt (then two) at every instruction boundary
            n = getattr(cpu, 'isr_end', cpu.steps - cpu.base)
            for k in range(n + 1):
                st, out, x = execute(flash, syms, name, c['inputs'], (k,), c.get('earlier'))
                if st != 'ok':
                    return st, out + '\ninterrupt before instruction %d (%s)' % (k, opt)
            if cpu.isr_max > 1 and (c['kind'] != 'witness'):
                for k in range(n + 1):
                    for j in range(k + 1, min(n, k + 60) + 1):
                        st, out, x = execute(flash, syms, name, c['inputs'], (k, j), c.get('earlier'))
                        if st != 'ok':
                            return st, out + '\ninterrupts before instructions %d and %d (%s)' % (k, j, opt)
        if c['kind'] == 'witness':
            break
    return st, out
