"""Random programs for the low-level compiler: the same program as a script for harness/lirun.c and as a case of spec/Lir.tla.
What a program may do (operand kinds, flags available, values of address registers) is tracked statically, so that the
documentation defines what nearly every instruction does."""
import struct

NREG, NFREG = 13, 15
M64 = (1 << 64) - 1
INTS = [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001,
        0xffffffff, 0x100000000, 0x1ffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff,
        0xffffffff80000000, 0xffffffff7fffffff, 0xffffffffffff8000, 0xffffffffffffff80, 0xffffffffffffff7f, 0x123456789abcdef0, 0xfedcba9876543210, 0x8877665544332211, 0xaaaaaaaa55555555]
D = lambda x: struct.unpack('<Q', struct.pack('<d', x))[0]
S = lambda x: struct.unpack('<I', struct.pack('<f', x))[0]
DBL = [D(x) for x in (0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 3.0, 1e10, -1e10, 1e300, -1e300, 1e-300, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.5,
                             9007199254740993.0, 9.223372036854775e18, -9.223372036854775808e18, 1.8446744073709552e19, 0.1, 3.141592653589793, 16777217.0, 3.4028235e38, 1e39, 1.1754944e-38, 1e-45)] + \
      [0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000001, 1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x36a0000000000000, 0x380fffffe0000000, 0x47effffff0000000]
FLT = [S(x) for x in (0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 1e10, -1e10, 1e38, 2147483648.0, -2147483648.0, 4294967040.0, 16777216.0, 0.1, 9.223372e18)] + [0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff]
SHIFTS = ('shl', 'mshl', 'lshr', 'mlshr', 'ashr', 'mashr')
OP2 = ('add', 'sub', 'mul', 'and', 'or', 'xor') + SHIFTS + ('rotl', 'rotr')
B8 = lambda v: list((v & M64).to_bytes(8, 'little'))
HX = lambda v: '%x' % (v & M64)
FEVEN = list(range(16, 36, 2))


class St:
    """what is known at a program point"""
    def __init__(self):
        self.k = {n: ('u', None) for n in range(1, NREG + 1)}   # kind u/w/3/c and value if known
        self.f = {n: 'u' for n in range(1, NFREG + 1)}          # '8' '4' 'u'
        self.li = set()                                         # local bytes written
        self.fl = None                                          # (id, z width or 0, v type or -1, width)

    def copy(self):
        s = St()
        s.k, s.f, s.li, s.fl = dict(self.k), dict(self.f), set(self.li), self.fl
        return s

    def meet(self, o):
        for n in self.k:
            a, b = self.k[n], o.k[n]
            self.k[n] = a if a == b else (a[0], None) if a[0] == b[0] and a[0] in 'w3' else ('u', None)
        for n in self.f:
            if self.f[n] != o.f[n]:
                self.f[n] = 'u'
        self.li &= o.li
        if self.fl != o.fl:
            self.fl = None


class Fn:
    def __init__(self, **a):
        self.__dict__.update(a)


class Gen:
    def __init__(self, rnd, cid, prof, decks):
        self.r, self.id, self.prof, self.decks = rnd, cid, prof, decks
        self.lines, self.ins, self.lab, self.jt, self.con, self.rw, self.cinfo = [], [], [], [], [], [], []
        self.alt = {}       # jump: another label it may be sent to
        self.nfl = 0
        self.hosts = {}
        self.frozen = set()
        self.ffrozen = set()
        self.pin = set()
        self.lw = set()     # bytes of locals the piece being made writes
        self.last = None
        self.ncall = 0
        self.budget = 400
        self.later = []
        self.bufs, self.bufq = [], []
        self.fillfix = None
        b1 = rnd.choice([0x20001000, 0x20001000 + rnd.randrange(64), 0x7fffffc0, 0x412345671000, 0x7ffff000 - 64, 0x100000040])
        b2 = rnd.choice([0x412340001000, 0x23450000ff80, 0x30012000, 0x7a0000000008])
        self.base = [b1, b2, 0x31000000]
        self.len = [128, 96, 8 * (NREG + NFREG)]
        self.mem = [self.fillmem(128), self.fillmem(96), [0] * self.len[2]]

    # ---- output -------------------------------------------------------------------------------------------------------
    def emit(self, line, **i):
        self.lines.append(line)
        if i:
            self.ins.append(i)
            self.budget -= 1

    def label(self, name=None, aligned=False):
        if name is None:
            name = self.newlabel()
        self.lab[name] = len(self.ins) + 1
        self.emit('alabel %d %d' % (name, self.r.randrange(5)) if aligned else 'label %d' % name, o='label')
        return name

    def newlabel(self):
        self.lab.append(0)
        return len(self.lab) - 1

    def jump(self, target=None, rw=0):
        self.jt.append(target)
        self.rw.append(rw)
        return len(self.jt) - 1

    def fillmem(self, n):
        b = []
        while len(b) < n:
            c = self.r.randrange(5)
            v = self.half() if self.r.random() < 0.1 else self.r.choice(INTS) if c < 2 else self.r.choice(DBL) if c == 2 else self.r.choice(FLT) | self.r.choice(FLT) << 32 if c == 3 else self.r.getrandbits(64)
            b += B8(v)
        return b[:n]

    # ---- registers ----------------------------------------------------------------------------------------------------
    def regs(self):
        return list(range(1, self.fn.s + 1)) + list(range(NREG - self.fn.sv + 1, NREG + 1))

    def fregs(self):
        return list(range(1, self.fn.fs + 1))

    def wr(self, avoid=()):
        """a register that may be written"""
        c = [n for n in self.regs() if n not in self.frozen and n not in self.pin and n not in avoid]
        if not c:
            return None
        low = [n for n in c if n <= 4]
        return self.r.choice(low) if low and self.r.random() < 0.4 else self.r.choice(c)

    def movi(self, n, v, kind='w'):
        if kind == 'w':
            self.emit('op1 mov 8 r%d i%s' % (n, HX(v)), o='op1', p='mov', w=8, d=['r', n], a=['i', B8(v)])
            self.s.k[n] = ('w', v & M64)
        else:
            v = sx(v & 0xffffffff)
            self.emit('op1 mov 4 r%d i%s' % (n, HX(v)), o='op1', p='mov', w=4, d=['r', n], a=['i', B8(v)])
            self.s.k[n] = ('3', None)

    def val(self):
        c = self.r.random()
        if c < 0.7:
            return self.r.choice(INTS)
        if c < 0.82:
            return 1 << self.r.randrange(64)
        if c < 0.87:
            return self.half()
        return self.r.getrandbits(64)

    def half(self):
        """near the middle between two neighbouring floating point numbers"""
        m = self.r.choice([24, 53])
        sh = self.r.choice([64 - m, self.r.randrange(1, 65 - m)])
        v = (self.r.getrandbits(m) | 1 << (m - 1)) << sh | 1 << (sh - 1)
        v += self.r.choice([0, 1, 1, -1])
        return v if self.r.random() < 0.8 else -v & M64

    def imm(self, w, shift=False):
        if shift:
            v = self.r.choice([0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, w * 8 - 1, self.r.randrange(64)])
        else:
            v = self.val()
            if self.r.random() < 0.3:
                v = self.r.choice([0, 1, -1, 2, -2, 127, 128, -128, -129, 0x7fffffff, -0x80000000])
        if w == 4:
            v = sx(v & 0xffffffff)
        return 'i' + HX(v), ['i', B8(v)]

    def rk(self, w, avoid=()):
        """a register holding a value of the width"""
        kind = 'w' if w == 8 else '3'
        c = [n for n in self.regs() if self.s.k[n][0] == kind and n not in avoid and not isinstance(self.s.k[n][1], tuple)]
        if c and self.r.random() < 0.9:
            low = [n for n in c if n <= 4]
            n = self.r.choice(low) if low and self.r.random() < 0.35 else self.r.choice(c)
        else:
            n = self.wr(avoid)
            if n is None:
                return self.r.choice(c) if c else None
            self.movi(n, self.val(), kind)
        self.pin.add(n)
        return n

    def memop(self, n, write=False, natural=False, align=1):
        """memory operand of n bytes"""
        r = self.r
        if self.last and r.random() < 0.2 and self.last[4] >= n and (self.last[3] % (n if natural else align) == 0):
            t, sp, need, ad, _, loc = self.last
            if all(self.s.k[q] == v for q, v in need) and (loc is None or write or all(x in self.s.li for x in range(loc, loc + n))):
                for q, _ in need:
                    self.pin.add(q)
                if write and loc is not None:
                    self.s.li |= set(range(loc, loc + n))
                    self.lw |= set(range(loc, loc + n))
                return t, sp
        if self.fn.loc >= 8 and r.random() < 0.25:
            offs = [o for o in range(0, self.fn.loc - n + 1) if not natural or o % n == 0]
            if not write:
                offs = [o for o in offs if all(x in self.s.li for x in range(o, o + n)) and o not in self.lres]
            offs = [o for o in offs if not any(x in self.lres for x in range(o, o + n))]
            if offs:
                o = r.choice(offs)
                # through a register with the address of a local
                c = [q for q in self.regs() if isinstance(self.s.k[q][1], tuple)]
                if write:
                    self.s.li |= set(range(o, o + n))
                    self.lw |= set(range(o, o + n))
                if c and r.random() < 0.6:
                    q = r.choice(c)
                    d = o - self.s.k[q][1][1]
                    self.pin.add(q)
                    if r.random() < 0.4:
                        x = self.wr()
                        if x:
                            sh = r.choice([0, 0, 1, 2, 3])
                            if d % (1 << sh) == 0:
                                self.movi(x, d >> sh)
                                self.pin.add(x)
                                return 'm%d,%d,%d,0' % (q, x, sh), ['m', q, x, sh, B8(0)]
                    return 'm%d,0,0,%s' % (q, HX(d)), ['m', q, 0, 0, B8(d)]
                self.last = ('s%d' % o, ['s', o], [], o, n, o)
                return 's%d' % o, ['s', o]
        k = r.choice([0, 0, 1])
        o = r.randrange(0, self.len[k] - n + 1)
        ad = self.base[k] + o
        al = n if natural else align
        if ad % al:
            ad -= ad % al
            if ad < self.base[k]:
                ad += al
        c = r.random()
        if c < 0.2:
            t, sp, need = 'm0,0,0,' + HX(ad), ['m', 0, 0, 0, B8(ad)], []
        else:
            known = [q for q in self.regs() if self.s.k[q][0] == 'w' and isinstance(self.s.k[q][1], int)]
            if c < 0.6:
                if known and r.random() < 0.6:
                    q = r.choice(known)
                else:
                    q = self.wr()
                    if q is None:
                        return self.memabs(ad)
                    self.movi(q, (ad - r.choice([0, 0, 0, 8, -8, 127, 128, -128, -129, 0x1000, 0x7fffffff, -0x80000000, 0x80000000, 1 << 40])) & M64)
                d = (ad - self.s.k[q][1]) & M64
                self.pin.add(q)
                t, sp, need = 'm%d,0,0,%s' % (q, HX(d)), ['m', q, 0, 0, B8(d)], [(q, self.s.k[q])]
            else:
                x = r.choice(known) if known and r.random() < 0.5 else None
                if x is None:
                    x = self.wr()
                    if x is None:
                        return self.memabs(ad)
                    self.movi(x, r.choice([0, 1, 2, 3, 4, 5, 8, 16, -1, -2, 0x100000000, 0xffffffff]))
                self.pin.add(x)
                sh = r.choice([0, 1, 2, 3])
                q = self.wr()
                if q is None:
                    return self.memabs(ad)
                self.movi(q, (ad - (self.s.k[x][1] << sh)) & M64)
                self.pin.add(q)
                if sh == 0 and r.random() < 0.3:
                    q, x = x, q
                t, sp, need = 'm%d,%d,%d,0' % (q, x, sh), ['m', q, x, sh, B8(0)], [(q, self.s.k[q]), (x, self.s.k[x])]
        self.last = (t, sp, need, ad, n, None)
        return t, sp

    def memabs(self, ad):
        return 'm0,0,0,' + HX(ad), ['m', 0, 0, 0, B8(ad)]

    def src(self, w, shape, shift=False, n=None):
        if shape == 'i':
            return self.imm(w, shift)
        if shape == 'r':
            q = self.rk(w)
            if q:
                return 'r%d' % q, ['r', q]
            return self.imm(w, shift)
        return self.memop(n or w)

    def setk(self, n, w, val=None):
        self.s.k[n] = ('w' if w == 8 else '3', val)

    def dst(self, w, shape, n=None):
        """operand and the function to call once the instruction is out"""
        if shape == 'r':
            q = self.wr() if self.r.random() < 0.85 else self.used()
            if q is None:
                q = self.wr_any()
            if q is not None:
                return 'r%d' % q, ['r', q], lambda: self.setk(q, w)
        t, sp = self.memop(n or w, True)
        return t, sp, lambda: None

    def used(self):
        """a register the operands chosen so far use"""
        c = [n for n in self.pin if n not in self.frozen and n in self.regs()]
        return self.r.choice(c) if c else None

    def wr_any(self):
        q = self.used() if self.r.random() < 0.3 else None
        if q is not None:
            return q
        c = [n for n in self.regs() if n not in self.frozen]
        return self.r.choice(c) if c else None

    def flags(self, z, v, w):
        self.nfl += 1
        self.s.fl = (self.nfl, w if z else 0, v, w) if z or v >= 0 else None

    # ---- integer instructions -----------------------------------------------------------------------------------------
    def i_op2(self, p=None, shapes=None, w=None, fl=None):
        r = self.r
        if p is None:
            p, w, shapes, fl = self.decks.next('op2')
        d, a, b = shapes
        self.pin = set()
        sh = p in SHIFTS + ('rotl', 'rotr')
        A = self.src(w, a)
        if b == 'a' and A[1][0] != 'i':
            B = A if not (sh and p in ('shl', 'lshr', 'ashr')) else self.shamt(w)
        elif sh and b != 'i' and p in ('shl', 'lshr', 'ashr'):
            B = self.shamt(w, b)
        else:
            B = self.src(w, 'r' if b == 'a' else b, sh)
        z, v = fl
        if d == 'n':
            if not z and v < 0:
                d = 'r'
        if d == 'n':
            self.emit('op2 %s %d %d %d n %s %s' % (p, w, z, v, A[0], B[0]), o='op2', p=p, w=w, z=z, v=v, d=['n'], a=A[1], b=B[1])
        else:
            if d == 'a' and A[1][0] == 'r' and A[1][1] not in self.frozen:
                q = A[1][1]
                T = A[0], A[1], lambda: self.setk(q, w)
            elif d == 'b' and B[1][0] == 'r' and B[1][1] not in self.frozen:
                q2 = B[1][1]
                T = B[0], B[1], lambda: self.setk(q2, w)
            elif d == 'a' and A[1][0] in 'ms' and not self.islres(A[1]):
                T = A[0], A[1], lambda: None
            elif d == 'b' and B[1][0] in 'ms':
                T = B[0], B[1], lambda: None
            else:
                T = self.dst(w, d if d in 'rm' else 'r')
            self.emit('op2 %s %d %d %d %s %s %s' % (p, w, z, v, T[0], A[0], B[0]), o='op2', p=p, w=w, z=z, v=v, d=T[1], a=A[1], b=B[1])
            T[2]()
        self.flags(z, v, w)
        if v == 12 and r.random() < 0.8:      # the carry goes on
            for _ in range(r.choice([1, 1, 2])):
                pp = r.choice(['addc', 'subc']) if r.random() < 0.2 else ('addc' if p in ('add', 'addc') else 'subc')
                self.pin = set()
                A = self.src(w, r.choice('rrim'))
                B = self.src(w, r.choice('rrim'))
                T = self.dst(w, r.choice('rrm'))
                v2 = 12 if r.random() < 0.6 else -1
                self.emit('op2 %s %d 0 %d %s %s %s' % (pp, w, v2, T[0], A[0], B[0]), o='op2', p=pp, w=w, z=0, v=v2, d=T[1], a=A[1], b=B[1])
                T[2]()
                self.flags(0, v2, w)
                if v2 < 0:
                    break
                p = pp
        elif (z or v >= 0) and r.random() < 0.75:
            self.i_useflags()

    def islres(self, sp):
        return sp[0] == 's' and any(x in self.lres for x in range(sp[1], sp[1] + 8))

    def shamt(self, w, shape='r'):
        """register (or memory) with a shift amount in range"""
        v = self.r.choice([0, 1, 2, 7, 8, 31, w * 8 - 1, self.r.randrange(w * 8)])
        q = None
        if self.r.random() < 0.35 and 4 in self.regs() and 4 not in self.pin and 4 not in self.frozen:
            q = 4
        q = q or self.wr()
        if q is None:
            return 'i' + HX(v), ['i', B8(v)]
        self.movi(q, v, 'w' if w == 8 else '3')
        self.pin.add(q)
        if shape == 'm':
            t, sp = self.memop(w, True)
            self.emit('op1 mov %d %s r%d' % (w, t, q), o='op1', p='mov', w=w, d=sp, a=['r', q])
            return t, sp
        return 'r%d' % q, ['r', q]

    def cond(self):
        """a condition the current flags answer"""
        fl = self.s.fl
        if not fl:
            return None
        c = []
        if fl[1]:
            c += [0, 1]
        if fl[2] >= 0:
            c += [fl[2], fl[2] + 1] * 2
        return self.r.choice(c)

    def i_useflags(self):
        t = self.cond()
        if t is None:
            return
        r = self.r
        self.pin = set()
        c = r.random()
        w = r.choice([4, 8])
        if c < 0.4:
            T = self.dst(w, r.choice('rrm'))
            if self.s.fl is None:
                return
            self.emit('opf mov %d 0 %d %s' % (w, t, T[0]), o='opf', p='mov', w=w, z=0, t=t, d=T[1])
            T[2]()
        elif c < 0.7:
            p = r.choice(['and', 'or', 'xor'])
            z = r.randrange(2)
            if r.random() < 0.8:
                ok = [q for q in self.regs() if q not in self.frozen]
                x = self.decks.take('opf', lambda x: x[0] != 'mov' and x[3] in ok)
                if x is None:
                    return
                p, w, z, q = x
                k = self.s.k[q]
                if k[0] != ('w' if w == 8 else '3') or isinstance(k[1], tuple):
                    self.movi(q, self.val(), 'w' if w == 8 else '3')
                if self.s.fl is None:
                    return
                T = 'r%d' % q, ['r', q], lambda: self.setk(q, w)
            else:
                T = self.memop(w) + (lambda: None,)
                if self.islres(T[1]):
                    return
            self.emit('opf %s %d %d %d %s' % (p, w, z, t, T[0]), o='opf', p=p, w=w, z=z, t=t, d=T[1])
            T[2]()
            self.flags(z, -1, w)
        elif c < 0.85 or not self.fn.fs:
            B = self.rk(w)
            A = self.src(w, r.choice('rrim'))
            if B is None:
                return
            d = A[1][1] if A[1][0] == 'r' and r.random() < 0.3 else B if r.random() < 0.3 else self.wr_any()
            if d is None or d in self.frozen:
                return
            self.emit('sel %d %d r%d %s r%d' % (w, t, d, A[0], B), o='sel', w=w, t=t, d=['r', d], a=A[1], b=['r', B])
            self.setk(d, w)
            if self.s.fl and self.s.fl[2] == 12:
                self.s.fl = None
        else:
            B = self.fk(w)
            A = self.fsrc(w)
            d = self.fwr()
            if d is None or B is None:
                return
            if A[1][0] == 'f' and r.random() < 0.25 and A[1][1] not in self.ffrozen:
                d = A[1][1]
            elif r.random() < 0.25 and B not in self.ffrozen:
                d = B
            self.emit('fsel %d %d f%d %s f%d' % (w, t, d, A[0], B), o='fsel', w=w, t=t, d=['f', d], a=A[1], b=['f', B])
            self.s.f[d] = str(w)
            if self.s.fl and self.s.fl[2] == 12:
                self.s.fl = None

    def i_op1(self):
        p, w, d, a = self.decks.next('op1')
        self.pin = set()
        mov = p.startswith('mov')
        n = {'mov_u8': 1, 'mov_s8': 1, 'mov_u16': 2, 'mov_s16': 2, 'mov_u32': 4, 'mov_s32': 4, 'rev_u16': 2, 'rev_s16': 2, 'rev_u32': 4, 'rev_s32': 4}.get(p, w)
        if a == 'i' and not mov:
            a = 'r'
        if a == 'r':
            kinds = {'mov_u32': '3w', 'mov_s32': '3w'}.get(p, '3w' if p == 'mov' and w == 4 else 'w' if w == 8 else '3')
            if p in ('clz', 'ctz') and self.r.random() < 0.6:
                q, v = self.wr(), self.decks.take('cnt', lambda x: x[:2] == (p, w))[2]
                if q is None:
                    return
                self.movi(q, v, 'w' if w == 8 else '3')
            else:
                q = self.rk(8 if self.r.choice(kinds) == 'w' else 4)
            if q is None:
                return
            A = 'r%d' % q, ['r', q]
        elif a == 'i':
            A = self.imm(8 if p in ('mov_u32', 'mov_s32') or w == 8 else 4)
        else:
            A = self.memop(n)
        if d == 'a' and A[1][0] == 'r' and A[1][1] not in self.frozen:
            q = A[1][1]
            T = A[0], A[1], lambda: self.setk(q, w)
        else:
            T = self.dst(w, 'r' if d == 'a' else d, n)
        if p == 'mov' and w == 8 and T[1][0] == A[1][0] == 'r' and self.r.random() < 0.3:      # the same, in machine code
            self.emit('cust %s %s' % (T[0], A[0]), o='op1', p=p, w=w, d=T[1], a=A[1])
            self.s.fl = None
        else:
            self.emit('op1 %s %d %s %s' % (p, w, T[0], A[0]), o='op1', p=p, w=w, d=T[1], a=A[1])
        keep = A[1][1] if A[1][0] == 'i' and p == 'mov' and w == 8 else None
        v = self.s.k[A[1][1]][1] if A[1][0] == 'r' and p in ('mov', 'mov_p') and w == 8 else None
        T[2]()
        if T[1][0] == 'r' and w == 8 and (keep or v is not None):
            self.s.k[T[1][1]] = ('w', int.from_bytes(bytes(keep), 'little') if keep else v)
        if not mov:
            self.s.fl = None
        elif self.s.fl and self.r.random() < 0.5:
            self.i_useflags()

    def i_op0(self):
        r = self.r
        p = r.choice(['lmul_uw', 'lmul_sw', 'divmod_uw', 'divmod_sw', 'div_uw', 'div_sw'])
        w = 8 if p.startswith('lmul') else r.choice([4, 8])
        kind = 'w' if w == 8 else '3'
        if self.fn.s < 2 or 1 in self.frozen or 2 in self.frozen:
            return
        self.pin = {1, 2}
        if self.s.k[1][0] != kind or isinstance(self.s.k[1][1], tuple) or r.random() < 0.3:
            self.movi(1, self.val(), kind)
        if p.startswith('div') or self.s.k[2][0] != kind or isinstance(self.s.k[2][1], tuple) or r.random() < 0.3:
            v = self.val()
            if p.startswith('div'):
                v = v if v & (M64 if w == 8 else 0xffffffff) else 3
                if p.endswith('_sw') and sx(v & 0xffffffff if w == 4 else v, w) == -1:
                    v = 7
            self.movi(2, v, kind)
        self.emit('op0 %s %d' % (p, w), o='op0', p=p, w=w)
        self.s.k[1] = (kind, None)
        if not p.startswith('div_'):
            self.s.k[2] = (kind, None)
        self.s.fl = None

    def i_muladd(self):
        w = self.r.choice([4, 8])
        self.pin = set()
        d = self.rk(w)
        if d is None or d in self.frozen:
            return
        A, B = self.src(w, self.r.choice('rrim')), self.src(w, self.r.choice('rrim'))
        self.emit('op2r %d r%d %s %s' % (w, d, A[0], B[0]), o='op2r', w=w, d=['r', d], a=A[1], b=B[1])
        self.setk(d, w)
        self.s.fl = None

    def i_shi(self):
        r = self.r
        p, w, cs = self.decks.next('shi')
        self.pin = set()
        A, B = self.rk(w), self.rk(w)
        if A is None or B is None:
            return
        if cs == 'i':
            C = self.imm(w, True)
            nz = 0 if C[1][1][0] % (8 * w) == 0 else r.randrange(2)
        elif p in ('shl', 'lshr'):
            C = self.shamt(w, cs)
            nz = 0
        else:
            C = self.src(w, cs)
            nz = 0
        c = [n for n in self.regs() if n not in self.frozen and n != B]
        if not c:
            return
        d = A if A != B and A not in self.frozen and r.random() < 0.35 else C[1][1] if C[1][0] == 'r' and C[1][1] in c and r.random() < 0.3 else r.choice(c)
        self.emit('shi %s %d %d r%d r%d r%d %s' % (p, w, nz, d, A, B, C[0]), o='shi', p=p, w=w, d=['r', d], a=['r', A], b=['r', B], c=C[1])
        self.setk(d, w)
        self.s.fl = None

    def i_mem(self):
        r = self.r
        self.pin = set()
        if r.random() < 0.4:
            st = r.randrange(2)
            al = r.choice([0, 1, 2, 4])
            if st:
                a, b = self.rk(8), self.rk(8)
                if a is None or b is None or a == b:
                    return
                A = self.memop(16, True, align={0: 8, 1: 1, 2: 2, 4: 4}[al])
            else:
                A = self.memop(16, align={0: 8, 1: 1, 2: 2, 4: 4}[al])
                pool = [n for n in self.regs() if n not in self.frozen]
                if len(pool) < 2:
                    return
                a, b = r.sample(pool, 2)
                used = [x for x in A[1][1:3] if A[1][0] == 'm' and x]
                if used and r.random() < 0.5:
                    u = [x for x in used if x not in self.frozen]
                    if u:
                        if r.random() < 0.5:
                            a = r.choice(u)
                            b = r.choice([n for n in pool if n != a])
                        else:
                            b = r.choice(u)
                            a = r.choice([n for n in pool if n != b])
            self.emit('mem mov 8 %d %d r%d:%d %s' % (st, al, a, b, A[0]), o='mem', p='mov', w=8, st=st, d=['r', a, b], a=A[1])
            if not st:
                self.setk(a, 8)
                self.setk(b, 8)
            return
        p, w = r.choice([('mov', 8), ('mov', 4), ('mov_u8', 8), ('mov_s8', 8), ('mov_u16', 8), ('mov_s16', 8), ('mov_u32', 8), ('mov_s32', 8), ('mov_p', 8), ('mov_u8', 4), ('mov_s8', 4), ('mov_u16', 4), ('mov_s16', 4)])
        n = {'mov_u8': 1, 'mov_s8': 1, 'mov_u16': 2, 'mov_s16': 2, 'mov_u32': 4, 'mov_s32': 4}.get(p, w)
        al = r.choice([1] + [2] * (n >= 4) + [4] * (n == 8))
        st = r.randrange(2)
        if st:
            q = self.rk(8 if p in ('mov_u32', 'mov_s32') and r.random() < 0.5 else w)
            if q is None:
                return
            A = self.memop(n, True, align=al)
        else:
            A = self.memop(n, align=al)
            q = self.wr_any()
            if q is None:
                return
        self.emit('mem %s %d %d %d r%d %s' % (p, w, st, al, q, A[0]), o='mem', p=p, w=w, st=st, d=['r', q], a=A[1])
        if not st:
            self.setk(q, w)

    def i_atomic(self):
        r = self.r
        self.pin = set()
        p, w = r.choice([('mov', 8), ('mov', 4), ('mov_u8', 8), ('mov_u16', 8), ('mov_u32', 8), ('mov_p', 8), ('mov_u8', 4), ('mov_u16', 4)])
        n = {'mov_u8': 1, 'mov_u16': 2, 'mov_u32': 4}.get(p, w)
        k = r.choice([0, 1])
        ad = self.base[k] + r.randrange(0, self.len[k] - n + 1)
        ad -= ad % n
        if ad < self.base[k]:
            ad += n
        m = self.wr()
        if m is None:
            return
        self.movi(m, ad)
        self.pin.add(m)
        src = self.rk(w)
        t = self.wr()
        if src is None or t is None or t == src:
            return
        self.emit('atl %s %d r%d r%d' % (p, w, t, m), o='op1', p=p, w=w, d=['r', t], a=['m', m, 0, 0, B8(0)])
        self.setk(t, w)
        if r.random() < 0.3:
            s2 = self.wr(avoid=(t, m))
            if s2 is not None and s2 not in (t, src):
                # what is stored depends on what was loaded
                self.emit('op2 add %d 0 -1 r%d r%d i1' % (w, s2, t), o='op2', p='add', w=w, z=0, v=-1, d=['r', s2], a=['r', t], b=['i', B8(1)])
                self.setk(s2, w)
                src = s2
        v = r.choice([14, 14, -1])
        self.emit('ats %s %d %d r%d r%d r%d' % (p, w, v, src, m, t), o='ats', p=p, w=w, v=v, d=['r', src], a=['r', m], b=['r', t])
        self.flags(0, v, w)
        if v == 14 and r.random() < 0.7:
            self.i_useflags()

    def i_lb(self):
        if self.fn.loc < 8:
            return
        self.pin = set()
        q = self.wr()
        if q is None:
            return
        off = self.r.randrange(self.fn.loc) if self.r.random() < 0.7 else self.r.choice([0, 0, 8, 64, 1024])
        self.emit('lb %d r%d' % (off, q), o='lb', d=['r', q], v=off)
        self.s.k[q] = ('w', ('L', off))
        self.s.fl = None

    def i_const(self):
        r = self.r
        self.pin = set()
        p, w = r.choice([('mov', 8), ('mov', 8), ('mov', 4), ('mov_s32', 8), ('mov_u8', 8), ('mov_u8', 4)])
        v = self.constval(p, w)
        n = 1 if p == 'mov_u8' else w
        T = self.dst(w, r.choice('rrm'), n)
        j = len(self.con)
        self.con.append(v)
        self.cinfo.append((p, w))
        self.emit('con %d %s %d %s %s' % (j, p, w, T[0], HX(v)), o='con', p=p, w=w, d=T[1], j=j)
        T[2]()

    def constval(self, p, w):
        v = self.val()
        return v & 0xff if p == 'mov_u8' else (sx(v & 0xffffffff) & M64) if w == 4 or p == 'mov_s32' else v

    # ---- float instructions -------------------------------------------------------------------------------------------
    def fwr(self):
        c = [n for n in self.fregs() if n not in self.ffrozen]
        return self.r.choice(c) if c else None

    def fval(self, w):
        return self.r.choice(DBL if w == 8 else FLT) if self.r.random() < 0.85 else self.r.getrandbits(8 * w)

    def fseti(self, n, w):
        v = self.fval(w)
        self.emit('fset %d f%d %s' % (w, n, HX(v)), o='fset', w=w, d=['f', n], v=B8(v)[:w])
        self.s.f[n] = str(w)
        self.s.fl = None if self.s.fl is None else None

    def fk(self, w):
        c = [n for n in self.fregs() if self.s.f[n] == str(w)]
        if c and self.r.random() < 0.85:
            return self.r.choice(c)
        n = self.fwr()
        if n is None:
            return self.r.choice(c) if c else None
        if self.s.fl is not None:      # setting one may destroy the flags
            return self.r.choice(c) if c else None
        self.fseti(n, w)
        return n

    def fsrc(self, w, shape=None):
        shape = shape or self.r.choice('rrm')
        if shape == 'r':
            n = self.fk(w)
            if n:
                return 'f%d' % n, ['f', n]
        return self.memop(w)

    def fdst(self, w, shape=None):
        shape = shape or self.r.choice('rrm')
        if shape == 'r':
            n = self.fwr()
            if n:
                def done():
                    self.s.f[n] = str(w)
                return 'f%d' % n, ['f', n], done
        return self.memop(w, True) + (lambda: None,)

    def f_op(self):
        r = self.r
        self.pin = set()
        c, w, sd, sa, sb = self.decks.next('fop')
        if self.s.fl is not None and c not in ('mov',):
            self.s.fl = None
        if not self.fn.fs:
            return
        if c in ('mov', 'neg', 'abs'):
            A = self.fsrc(w, sa)
            T = self.fdst(w, sd) if not (A[1][0] == 'f' and sb == 'r' and A[1][1] not in self.ffrozen) else self.same(A, w)
            self.emit('fop1 %s %d %s %s' % (c, w, T[0], A[0]), o='fop1', p=c, w=w, d=T[1], a=A[1])
            T[2]()
        elif c in ('add', 'sub', 'mul', 'div'):
            A = self.fsrc(w, sa)
            B = A if r.random() < 0.1 else self.fsrc(w, sb)
            x = r.random()
            T = self.same(A, w) if x < 0.25 and A[1][0] == 'f' and A[1][1] not in self.ffrozen else self.same(B, w) if x < 0.5 and B[1][0] == 'f' and B[1][1] not in self.ffrozen else self.fdst(w, sd)
            self.emit('fop2 %s %d %s %s %s' % (c, w, T[0], A[0], B[0]), o='fop2', p=c, w=w, d=T[1], a=A[1], b=B[1])
            T[2]()
        elif c == 'copysign':
            A = self.fsrc(w, sa)
            B = self.fsrc(w, sb)
            n = A[1][1] if A[1][0] == 'f' and r.random() < 0.3 else B[1][1] if B[1][0] == 'f' and r.random() < 0.4 else self.fwr()
            if n in self.ffrozen or n is None:
                return
            self.emit('fop2 copysign %d f%d %s %s' % (w, n, A[0], B[0]), o='fop2', p=c, w=w, d=['f', n], a=A[1], b=B[1])
            self.s.f[n] = str(w)
        elif c == 'cvt':
            A = self.fsrc(12 - w, sa)
            T = self.fdst(w, sd)
            self.emit('fcv %d %s %s' % (w, T[0], A[0]), o='fcv', w=w, d=T[1], a=A[1])
            T[2]()
        elif c == 'toint':
            n = r.choice([4, 8])
            A = self.fsrc(w, sa)
            T = self.dst(n, sd)
            self.emit('fti %d %d %s %s' % (w, n, T[0], A[0]), o='fti', w=w, n=n, d=T[1], a=A[1])
            T[2]()
        elif c == 'fromint':
            n, sg = r.choice([4, 8]), r.randrange(2)
            x = r.random()
            q = self.wr() if x < 0.35 else None
            if x > 0.6:      # from memory, or as an immediate
                h = self.half()
                if n == 4:
                    h = sx(h & 0xffffffff)
                A = 'i' + HX(h), ['i', B8(h)]
                if x > 0.75:
                    M = self.memop(n, True)
                    self.emit('op1 mov %d %s %s' % (n, M[0], A[0]), o='op1', p='mov', w=n, d=M[1], a=A[1])
                    A = M
            elif q:
                self.movi(q, self.half(), 'w' if n == 8 else '3')
                A = 'r%d' % q, ['r', q]
                self.pin.add(q)
            else:
                A = self.src(n, r.choice('rrmi'))
            T = self.fdst(w, sd)
            self.emit('ffi %d %d %d %s %s' % (w, n, sg, T[0], A[0]), o='ffi', w=w, n=n, sg=sg, d=T[1], a=A[1])
            T[2]()
        elif c == 'cmp':
            A = self.fsrc(w, sa)
            B = self.fsrc(w, sb)
            v = r.choice(FEVEN)
            self.emit('fcp %d %d %s %s' % (w, v, A[0], B[0]), o='fcp', w=w, v=v, a=A[1], b=B[1])
            self.flags(0, v, w)
            self.i_useflags()
            if r.random() < 0.5:
                self.i_useflags()
        elif c == 'set':
            n = self.fwr()
            if n:
                self.fseti(n, w)
        elif c == 'copy':
            st = r.randrange(2)
            if st:
                n = self.fk(w)
                q = self.wr()
                if n is None or q is None:
                    return
                self.setk(q, w)
            else:
                q = self.rk(w)
                n = self.fwr()
                if n is None or q is None:
                    return
                self.s.f[n] = str(w)
            self.emit('fcy %d %d f%d r%d' % (st, w, n, q), o='fcy', st=st, w=w, d=['f', n], a=['r', q])
        elif c == 'mem':
            st = r.randrange(2)
            al = r.choice([1, 2] + [4] * (w == 8))
            if st:
                n = self.fk(w)
                A = self.memop(w, True, align=al)
            else:
                A = self.memop(w, align=al)
                n = self.fwr()
            if n is None:
                return
            if not st:
                self.s.f[n] = str(w)
            self.emit('fmem %d %d %d f%d %s' % (w, st, al, n, A[0]), o='fmem', w=w, st=st, d=['f', n], a=A[1])

    def same(self, A, w):
        def done():
            self.s.f[A[1][1]] = str(w)
        return A[0], A[1], done

    # ---- control ------------------------------------------------------------------------------------------------------
    def simple(self):
        c = self.r.choices(list(self.prof), list(self.prof.values()))[0]
        {'op2': self.i_op2, 'op1': self.i_op1, 'op0': self.i_op0, 'muladd': self.i_muladd, 'shi': self.i_shi, 'mem': self.i_mem, 'atomic': self.i_atomic,
         'lb': self.i_lb, 'const': self.i_const, 'float': self.f_op, 'ctl': self.control, 'misc': self.misc, 'rob': self.readbuf}[c]()

    def misc(self):
        c = self.r.randrange(4)
        if c == 0:
            self.emit('nop', o='nop')
        elif c == 1:
            self.emit('barrier', o='nop')
        elif c == 2:
            self.emit('endbr', o='nop')
        else:
            self.pin = set()
            t, sp = self.memop(1)
            self.emit('prefetch %d %s' % (self.r.randrange(4), t), o='nop')

    def block(self, n, depth):
        for _ in range(n):
            if self.budget < 0:
                return
            old = self.depth
            self.depth = depth
            self.simple()
            self.depth = old

    def fill(self):
        r = self.r
        if self.fillfix is not None:
            if self.fillfix:
                self.lines.append('fill %d' % self.fillfix)
        elif r.random() < 0.35:
            self.lines.append('fill %d' % r.choice([1, 2, 3, 90, 100, 110, 115, 120, 122, 124, 126, 127, 128, 129, 130, 200, 1000]))

    def serpoint(self, more=0):
        if self.r.random() < 0.3:
            for j in self.r.sample(range(len(self.jt)), min(2, len(self.jt))):
                if self.jt[j] is not None:
                    self.lines.append('bind %d' % j)
        if self.r.random() < 0.15:
            self.lines.append('almem %d' % self.r.choice([1, 7, 8, 16, 40, 64, 120, 128]))
        if self.ser and self.r.random() < max(self.ser, more):
            self.lines.append('ser %d' % self.r.choice([0, 0, 1, 2]))

    def condjump(self, target=None):
        """emits one conditional jump, returns its number"""
        r = self.r
        self.pin = set()
        c = r.random()
        rw = int(r.random() < 0.25)
        if self.s.fl and self.s.fl[2] != 12 and c < 0.6:
            t = self.cond()
            j = self.jump(target, rw)
            self.emit('jmp %d %d %d' % (t, j, rw), o='jmp', t=t, j=j)
        elif self.s.fl and c < 0.6:
            t = self.cond()
            j = self.jump(target, rw)
            self.emit('jmp %d %d %d' % (t, j, rw), o='jmp', t=t, j=j)
            self.s.fl = None
        elif c < 0.65 and self.fn.fs:
            w = r.choice([4, 8])
            self.s.fl = None
            A, B = self.fsrc(w), self.fsrc(w)
            t = r.choice(range(16, 36))
            if t < 22 and r.random() < 0.7:
                t += 8 if t % 2 == 0 else 16      # unordered operands are likely; the basic types leave them open
                t = min(t, 35)
            j = self.jump(target, rw)
            self.emit('fcm %d %d %d %d %s %s' % (w, t, j, rw, A[0], B[0]), o='fcm', w=w, t=t, a=A[1], b=B[1], j=j)
            self.s.fl = None
        elif c < 0.85:
            w = r.choice([4, 8])
            A, B = self.src(w, r.choice('rrim')), self.src(w, r.choice('rrim'))
            t = r.choice(range(0, 10))
            j = self.jump(target, rw)
            self.emit('cmp %d %d %d %d %s %s' % (w, t, j, rw, A[0], B[0]), o='cmp', w=w, t=t, a=A[1], b=B[1], j=j)
            self.s.fl = None
        else:
            w = r.choice([4, 8])
            p = r.choice(['add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'mashr'])
            A = self.src(w, r.choice('rrim'))
            B = self.shamt(w) if p in ('shl', 'lshr') else self.src(w, r.choice('rrim'), p == 'mashr')
            T = self.dst(w, r.choice('rrm'))
            nz = r.randrange(2)
            v = r.choice([-1, 10]) if p == 'add' else r.choice([-1, 2, 4, 6, 8, 10]) if p == 'sub' else -1
            j = self.jump(target, rw)
            self.emit('o2z %s %d %d %d %d %d %s %s %s' % (p, w, v, nz, j, rw, T[0], A[0], B[0]), o='o2z', p=p, w=w, v=v, nz=nz, d=T[1], a=A[1], b=B[1], j=j)
            T[2]()
            self.flags(0, v, w)
        if rw:      # it may be sent right behind itself
            self.s.fl = None
            self.alt[j] = self.label()
        return j

    def join(self, name, other=None, aligned=False):
        """label where the state `other` arrives as well"""
        if other is not None:
            self.s.meet(other)
        fl = self.s.fl
        self.label(name, aligned)
        if fl is not None and (fl[2] != 12) and self.r.random() < 0.7:
            self.lines.append('cflags %d %d' % (1 if fl[1] else 0, fl[2]))
        else:
            self.s.fl = None
        self.last = None

    def control(self):
        r = self.r
        if self.depth >= 3 or self.budget < 30:
            return self.i_op2()
        c = r.random()
        d = self.depth + 1
        if c < 0.3:      # if [else]
            j = self.condjump()
            s0 = self.s.copy()
            self.fill()
            self.block(r.randrange(0, 4), d)
            if r.random() < 0.4:
                k, rw = self.jump(), int(r.random() < 0.3)
                self.rw[k] = rw
                self.emit('jmp 36 %d %d' % (k, rw), o='jmp', t=36, j=k)
                s1 = self.s
                self.fill()
                self.jt[j] = self.newlabel()
                self.s = s0
                self.join(self.jt[j])
                self.serpoint()
                self.block(r.randrange(0, 4), d)
                self.jt[k] = self.newlabel()
                self.join(self.jt[k], s1)
            else:
                self.jt[j] = self.newlabel()
                self.join(self.jt[j], s0, r.random() < 0.15)
        elif c < 0.5:
            self.loop(d)
        elif c < 0.62:      # over a dead part, through an address
            self.pin = set()
            q = self.wr()
            if q is None:
                return
            j, t = self.jump(), self.newlabel()
            self.jt[j] = t
            how = r.randrange(3)
            if how == 0:
                rw = r.randrange(2)
                self.rw[j] = rw
                self.emit('jmp 36 %d %d' % (j, rw), o='jmp', t=36, j=j)
            elif how == 1:
                self.adr(j, q)
                self.emit('ijm r%d' % q, o='ijm', a=['r', q])
            else:
                if self.fn.loc >= 8:
                    o = r.randrange(0, self.fn.loc - 7)
                    if any(x in self.lres for x in range(o, o + 8)):
                        o = None
                else:
                    o = None
                if o is None:
                    self.adr(j, q)
                    self.emit('ijm r%d' % q, o='ijm', a=['r', q])
                else:
                    self.emit('adr %d %d s%d' % (j, r.randrange(2), o), o='adr', d=['s', o], j=j, add=0)
                    self.s.li -= set(range(o, o + 8))
                    self.lw |= set(range(o, o + 8))
                    self.emit('ijm s%d' % o, o='ijm', a=['s', o])
            s0 = self.s
            self.s = s0.copy()
            self.s.fl = None
            self.last = None
            if self.rw[j]:
                self.alt[j] = self.label()
            self.fill()
            if not self.rw[j] and r.random() < 0.5:
                self.putbuf()
            self.block(r.randrange(0, 3), d)
            s1, self.s = self.s, s0
            if self.rw[j]:
                self.s.meet(s1)
            self.s.fl = None
            self.last = None
            self.label(t, r.random() < 0.2)
        elif c < 0.75 and self.subs:
            self.fastcall()
        elif c < 0.82 and self.fn.land and not self.nocall:
            j = self.condjump()
            s0 = self.s.copy()
            self.rto()
            self.s = s0
            self.jt[j] = self.newlabel()
            self.join(self.jt[j])
        else:
            self.call()

    def rto(self):
        """leave to the address the caller gave"""
        if self.fn.keep:
            self.serpoint(0.6)
        r = self.r
        self.pin = set()
        for k in range(self.fn.keep):
            if self.s.k[NREG - k][0] != 'w' or isinstance(self.s.k[NREG - k][1], tuple):
                self.movi(NREG - k, self.val())
        kind, q = self.landing
        if (self.s.k[1][0] != 'w' or isinstance(self.s.k[1][1], tuple)) and (kind, q) != ('r', 1):
            self.movi(1, self.val())
        if kind == 'r' and q == 1:      # the word that is passed goes there
            if self.fn.loc < 8 or any(x in self.lres for x in range(8)):
                x = self.wr(avoid=(1,))
                if x is None:
                    x = 2
                self.emit('op1 mov 8 r%d r1' % x, o='op1', p='mov', w=8, d=['r', x], a=['r', 1])
                kind, q = 'r', x
            else:
                self.emit('op1 mov 8 s0 r1', o='op1', p='mov', w=8, d=['s', 0], a=['r', 1])
                kind, q = 's', 0
            self.movi(1, self.val())
        if r.random() < 0.6:
            ok = [x for x in self.regs() if x not in self.frozen and x != 1 and x <= NREG - self.fn.keep]
            x = self.decks.take('rto', lambda x: x in ok)
            if x is not None:
                self.emit('op1 mov 8 r%d %s%d' % (x, kind, q), o='op1', p='mov', w=8, d=['r', x], a=[kind, q])
                kind, q = 'r', x
        A = '%s%d' % (kind, q), [kind, q]
        if kind == 's' and r.random() < 0.5:
            b = r.choice([n for n in self.regs() if n != 1 and n <= NREG - self.fn.keep])
            off = r.choice([0, q, 8])
            self.emit('lb %d r%d' % (off, b), o='lb', d=['r', b], v=off)
            A = 'm%d,0,0,%s' % (b, HX(q - off)), ['m', b, 0, 0, B8(q - off)]
        self.emit('rto %s' % A[0], o='rto', a=A[1])

    def adr(self, j, q):
        self.emit('adr %d %d r%d' % (j, self.r.randrange(2), q), o='adr', d=['r', q], j=j, add=0)
        self.s.k[q] = ('c', None)

    # ---- read-only buffers ----------------------------------------------------------------------------------------------
    def planbufs(self):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            g = {'al': r.randrange(5), 'bufs': []}
            for _ in range(r.choice([1, 1, 2, 3])):
                self.bufs.append({'lid': self.newlabel(), 'size': r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 40, 64, r.randrange(1, 90)])})
                self.lab[-1] = -len(self.bufs)
                g['bufs'].append(self.bufs[-1])
            self.bufq.append(g)

    def putbuf(self, all=False):
        while self.bufq:
            g = self.bufq.pop()
            self.lines.append('rbuf %d %d %s' % (g['al'], len(g['bufs']), ' '.join('%d %d' % (b['lid'], b['size']) for b in g['bufs'])))
            if not all:
                return

    def readbuf(self):
        """loads from a read-only buffer"""
        r = self.r
        if r.random() < 0.4:
            self.i_op2('sub', ('n', 'r', r.choice('ri')), r.choice([4, 8]), (1, r.choice([-1, 2, 4, 6, 8, 10])))
        self.pin = set()
        q = self.wr()
        if q is None or not self.bufs:
            return
        b = r.choice(self.bufs)
        j = self.jump()
        self.jt[j] = b['lid']
        self.pin = {q}
        n = r.choice([n for n in (1, 2, 4, 8) if n <= b['size']])
        off = r.choice([0, b['size'] - n, r.randrange(b['size'] - n + 1)])
        d = 0
        x = self.wr()
        if r.random() < 0.5:
            d = r.choice([off, r.randrange(64), r.randrange(1 << 15)])
            if self.fn.loc >= 8 and not any(y in self.lres for y in range(8)) and r.random() < 0.3:
                self.emit('op1 mov 8 s0 i%s' % HX(d), o='op1', p='mov', w=8, d=['s', 0], a=['i', B8(d)])
                self.emit('adr %d 2 s0' % j, o='adr', d=['s', 0], j=j, add=1)
                self.s.li -= set(range(8))
                self.lw |= set(range(8))
                self.emit('op1 mov 8 r%d s0' % q, o='op1', p='mov', w=8, d=['r', q], a=['s', 0])
            else:
                self.movi(q, d)
                self.emit('adr %d 2 r%d' % (j, q), o='adr', d=['r', q], j=j, add=1)
        else:
            self.emit('adr %d %d r%d' % (j, 1, q), o='adr', d=['r', q], j=j, add=0)
        self.s.k[q] = ('c', None)
        if x is not None and r.random() < 0.3:
            self.pin.add(x)
            # the index register makes up for the rest
            self.movi(x, off - d)
            A = 'm%d,%d,0,0' % (q, x), ['m', q, x, 0, B8(0)]
        else:
            A = 'm%d,0,0,%s' % (q, HX(off - d)), ['m', q, 0, 0, B8(off - d)]
        y = self.wr()
        fr = [f for f in self.fregs() if f not in self.ffrozen]
        if n >= 4 and fr and r.random() < 0.3:
            f = r.choice(fr)
            self.emit('fop1 mov %d f%d %s' % (n, f, A[0]), o='fop1', p='mov', w=n, d=['f', f], a=A[1])
            self.s.f[f] = str(n)
        elif y is not None:
            p = {1: ('mov_u8', 'mov_s8'), 2: ('mov_u16', 'mov_s16'), 4: ('mov_u32', 'mov_s32'), 8: ('mov',)}[n]
            p = r.choice(p)
            self.emit('op1 %s 8 r%d %s' % (p, y, A[0]), o='op1', p=p, w=8, d=['r', y], a=A[1])
            self.s.k[y] = ('w', None)
        if y != q:
            self.s.k[q] = ('c', None)
        self.i_useflags()
        self.pin = set()

    def loop(self, d):
        r = self.r
        self.pin = set()
        cnt = r.randrange(1, 4)
        usemem = self.fn.loc >= 8 and r.random() < 0.3
        w = r.choice([4, 8])
        off = None
        if usemem:
            offs = [o for o in range(0, self.fn.loc - 7) if not any(x in self.lres for x in range(o, o + 8))]
            if not offs:
                return
            off = r.choice(offs)
            self.lres |= set(range(off, off + 8))
            self.emit('op1 mov %d s%d i%x' % (w, off, cnt), o='op1', p='mov', w=w, d=['s', off], a=['i', B8(cnt)])
            X = 's%d' % off, ['s', off]
            q = None
        else:
            c = [n for n in self.regs() if n not in self.frozen and n > NREG - self.fn.sv + self.fn.keepmax]
            c2 = [n for n in self.regs() if n not in self.frozen and n <= self.fn.s]
            nocall = False
            if c and r.random() < 0.7:
                q = r.choice(c)
            elif c2:
                q = r.choice(c2)
                nocall = True
            else:
                return
            self.movi(q, cnt, 'w' if w == 8 else '3')
            self.s.k[q] = ('w' if w == 8 else '3', None)
            self.frozen.add(q)
            X = 'r%d' % q, ['r', q]
            oldnc = self.nocall
            self.nocall = self.nocall or nocall
        # what the body may change loses its value
        for n in self.regs():
            if n not in self.frozen and self.s.k[n][0] in 'w3c':
                if self.s.k[n][1] is not None or self.s.k[n][0] == 'c':
                    self.s.k[n] = ('u', None) if self.s.k[n][0] == 'c' or isinstance(self.s.k[n][1], tuple) else (self.s.k[n][0], None)
        self.s.fl = None
        self.last = None
        head = self.newlabel()
        self.label(head, r.random() < 0.1)
        self.serpoint()
        s0 = self.s.copy()
        lr = self.lres
        # bytes of locals known at the head stay known, new ones only after the body
        self.block(r.randrange(1, 5), d)
        self.fill()
        for n in self.regs():
            if n in self.frozen:
                continue
            a, b = s0.k[n], self.s.k[n]
            if a[0] in 'w3' and b[0] != a[0]:
                self.movi(n, self.val(), a[0])
        for n in self.fregs():
            if s0.f[n] != 'u' and self.s.f[n] != s0.f[n]:
                self.fseti(n, int(s0.f[n]))
        self.s.fl = None
        rw = int(r.random() < 0.2)
        how = r.randrange(3)
        j = self.jump(head, rw)
        if how == 0:
            self.emit('op2 sub %d 1 -1 %s %s i1' % (w, X[0], X[0]), o='op2', p='sub', w=w, z=1, v=-1, d=X[1], a=X[1], b=['i', B8(1)])
            self.emit('jmp 1 %d %d' % (j, rw), o='jmp', t=1, j=j)
        elif how == 1:
            p, m = r.choice([('sub', 1), ('add', -1)])
            self.emit('o2z %s %d -1 1 %d %d %s %s i%s' % (p, w, j, rw, X[0], X[0], HX(m)), o='o2z', p=p, w=w, v=-1, nz=1, d=X[1], a=X[1], b=['i', B8(m)], j=j)
        else:
            self.emit('op2 sub %d 0 -1 %s %s i1' % (w, X[0], X[0]), o='op2', p='sub', w=w, z=0, v=-1, d=X[1], a=X[1], b=['i', B8(1)])
            t = r.choice([1, 4, 8])
            self.emit('cmp %d %d %d %d %s i0' % (w, t, j, rw, X[0]), o='cmp', w=w, t=t, a=X[1], b=['i', B8(0)], j=j)
        if rw:
            self.alt[j] = self.label()
        if off is not None:
            self.lres = lr - set(range(off, off + 8))
            self.s.li |= set(range(off, off + w))
            self.lw |= set(range(off, off + 8))
        else:
            self.frozen.discard(q)
            self.nocall = oldnc
        self.s.fl = None
        self.last = None

    # ---- calls --------------------------------------------------------------------------------------------------------
    def args(self, ts):
        """put values of the types where a call takes them"""
        ni = nf = 0
        for t in ts:
            if t in 'w3p':
                ni += 1
                kind = '3' if t == '3' else 'w'
                if self.s.k[ni][0] != kind or isinstance(self.s.k[ni][1], tuple):
                    self.movi(ni, self.val(), kind)
            else:
                nf += 1
                w = 8 if t == 'd' else 4
                if self.s.f[nf] != str(w):
                    self.fseti(nf, w)
        return ni, nf

    def fits(self, ts, extra=0):
        ni, nf = sum(t in 'w3p' for t in ts), sum(t in 'df' for t in ts)
        return ni + extra <= self.fn.s and nf <= self.fn.fs and not any(n in self.frozen for n in range(1, self.fn.s + 1)) and not (self.ffrozen)

    def aftercall(self, rt):
        for n in range(1, self.fn.s + 1):
            self.s.k[n] = ('u', None)
        for n in self.fregs():
            self.s.f[n] = 'u'
        self.s.fl = None
        self.last = None
        if rt in 'wp3' and self.fn.s:
            self.s.k[1] = ('3' if rt == '3' else 'w', None)
        if rt in 'df' and self.fn.fs:
            self.s.f[1] = '8' if rt == 'd' else '4'

    def call(self, tail=False):
        r = self.r
        if self.nocall and not tail:
            return
        self.pin = set()
        self.last = None
        cands = list(self.callees)
        if cands and r.random() < 0.65:
            g = r.choice(cands)
            if g.rt in 'df' and not self.fn.fs:
                return False
            if tail and (g.rt != self.fn.rt or g.ra != self.fn.ra):
                return False
            ts = [{'W': 'w', 'T': '3', 'P': 'p'}.get(t, t) for t in g.ts]
            if g.keep > self.fn.sv or any(NREG - k in self.frozen for k in range(g.keep)) or (tail and g.keep > self.fn.keep):
                return False
            rw = int(r.random() < 0.25)
            how = r.random()
            if not self.fits(ts, 1 if how >= 0.6 else 0):
                return False
            if how >= 0.6 and tail and self.fn.keep:
                how = 0
            if tail and g.land:
                return False
            for k in range(g.keep):
                if self.s.k[NREG - k][0] != 'w' or isinstance(self.s.k[NREG - k][1], tuple):
                    self.movi(NREG - k, self.val())
            ni, nf = self.args(ts)
            jl = None
            if g.land:      # where it may go instead of returning
                jl = self.jump(g.lab, 0)
                self.adr(jl, g.land)
            sig = g.rt + ':' + (''.join(ts) or '-')
            rt = '' if g.rt == 'v' else g.rt
            self.ncalls_to[g.i] = self.ncalls_to.get(g.i, 0) + 1
            if how < 0.6:
                j = self.jump(g.lab, rw)
                others = [h for h in self.callees if h is not g and h.ts == g.ts and h.rt == g.rt and h.ra == g.ra and h.keep == g.keep and h.land == g.land]
                if rw and others:
                    self.alt[j] = r.choice(others).lab
                self.emit('call %d %s %d %d %d' % (j, sig, g.ra, int(tail), rw), o='call', h=0, j=j, a=['n'], ts=ts, rt=rt, tail=int(tail))
            else:
                j = self.jump(g.lab, 0)
                c = [n for n in self.regs() if n > ni and n not in self.frozen and n <= NREG - g.keep]
                if not c:
                    self.jt.pop()
                    self.rw.pop()
                    return False
                q = r.choice(c)
                self.adr(j, q)
                A = 'r%d' % q, ['r', q]
                if self.fn.loc >= 8 and r.random() < 0.3:
                    o = r.randrange(0, self.fn.loc - 7)
                    if not any(x in self.lres for x in range(o, o + 8)):
                        self.emit('op1 mov 8 s%d r%d' % (o, q), o='op1', p='mov', w=8, d=['s', o], a=['r', q])
                        self.s.li -= set(range(o, o + 8))
                        self.lw |= set(range(o, o + 8))
                        A = 's%d' % o, ['s', o]
                self.emit('icall %s %d %d %s' % (sig, g.ra, int(tail), A[0]), o='call', h=0, j=-1, a=A[1], ts=ts, rt=rt, tail=int(tail))
            if not tail:
                self.aftercall(rt or 'v')
                for k in range(g.keep):
                    self.s.k[NREG - k] = ('w', None)
                if g.land:
                    s1 = self.s.copy()
                    for n in self.fregs():
                        s1.f[n] = 'u'
                    s1.k[1] = ('w', None)
                    if r.random() < 0.5:
                        self.block(r.randrange(0, 3), 3)
                    over = None
                    if r.random() < 0.5:
                        over = self.jump(self.newlabel(), 0)
                        self.emit('jmp 36 %d 0' % over, o='jmp', t=36, j=over)
                        s0, self.s = self.s, s1
                    self.fill()
                    self.jt[jl] = self.newlabel()
                    if over is None:
                        self.join(self.jt[jl], s1)
                    else:
                        self.label(self.jt[jl], r.random() < 0.2)
                        self.s.fl = None
                        self.last = None
                        self.block(r.randrange(0, 3), 3)
                        self.join(self.jt[over], s0)
            return True
        if tail and self.fn.ra:
            return False
        h = r.randrange(1, 5)
        if h not in self.hosts:
            self.hosts[h] = ([r.choice('www3pdf') for _ in range(r.choice([0, 1, 2, 3, 4]))], r.choice('w3pdfv'))
        ts, rt = self.hosts[h]
        if tail and rt != self.fn.rt or not self.fits(ts, 1) or (rt in 'df' and not self.fn.fs):
            return False
        how = r.randrange(4)
        ni, nf = self.args(ts)
        q = None
        if how == 1:
            c = [n for n in self.regs() if n > ni and n not in self.frozen and n not in range(NREG - self.fn.keep + 1, NREG + 1)]
            if not c:
                how = 0
            else:
                q = r.choice(c)
                self.emit('hostaddr %d r%d' % (h, q), o='und', d=['r', q])
                self.s.k[q] = ('u', None)
        self.emit('hcall %d %s %d %d r%d' % (h, rt + ':' + (''.join(ts) or '-'), int(tail), how, q or 0), o='call', h=h, j=-1, a=['n'], ts=ts, rt='' if rt == 'v' else rt, tail=int(tail))
        if q:      # the harness's own instruction leaves the register with an address the specification does not know
            pass
        if not tail:
            self.aftercall(rt)
            if q and q > self.fn.s:
                self.s.k[q] = ('u', None)
        return True

    def fastcall(self):
        r = self.r
        sub = r.choice(self.subs)
        if (sub['mod'] & self.frozen) or (sub['fmod'] & self.ffrozen):
            return
        self.pin = set()
        for n, k in sub['need'].items():
            if self.s.k[n][0] != k or isinstance(self.s.k[n][1], tuple):
                if n in self.frozen:
                    return
                self.movi(n, self.val(), k)
            self.pin.add(n)
        if sub['lmod'] & self.lres:
            return
        q = self.wr() if r.random() < 0.4 else None
        if q is not None and q not in sub['mod'] and q not in sub['need']:
            j = self.jump(sub['lab'], 0)
            self.adr(j, q)
            self.emit('fci r%d' % q, o='fci', a=['r', q])
        else:
            rw = r.randrange(2)
            j = self.jump(sub['lab'], rw)
            self.emit('fca %d %d' % (j, rw), o='fca', j=j)
        sub['used'] = True
        for n in sub['mod']:
            self.s.k[n] = sub['out'].get(n, ('u', None))
        for n in sub['fmod']:
            self.s.f[n] = sub['fout'].get(n, 'u')
        self.s.li -= sub['lmod']
        self.lw |= sub['lmod']
        self.s.fl = None
        self.last = None

    # ---- functions ----------------------------------------------------------------------------------------------------
    def enter(self, fn):
        self.fn = fn
        self.s = St()
        self.lres = set()
        self.frozen, self.ffrozen, self.pin, self.last, self.nocall, self.depth = set(), set(), set(), None, False, 0
        ni = ns = nf = 0
        for t in fn.ts:
            if t in 'w3p':
                n = NREG - ns
                ns += 1
                ni += 1
            elif t in 'WTP':
                ni += 1
                n = ni
            else:
                nf += 1
                self.s.f[nf] = '8' if t == 'd' else '4'
                continue
            self.s.k[n] = ('3' if t in '3T' else 'w', None)
        for k in range(fn.keep):
            self.s.k[NREG - k] = ('w', None)
        self.landing = None
        if fn.land:
            n = fn.landarg
            self.landing = ('r', n)
        # an argument that another one overwrites is gone: see the order below
        self.emit('ent %d %d %s:%s %d %d %d %d' % (fn.ra, fn.keep, fn.rt, ''.join(fn.ts) or '-', fn.s, fn.sv, fn.fs, fn.loc),
                  o='ent', s=fn.s, sv=fn.sv, loc=fn.loc, rt='' if fn.rt == 'v' else fn.rt, ra=fn.ra, keep=fn.keep, ts=fn.ts)

    def ret(self):
        r = self.r
        fn = self.fn
        self.pin = set()
        if fn.keep:
            self.serpoint(0.6)
        for k in range(fn.keep):
            if self.s.k[NREG - k][0] != 'w' or isinstance(self.s.k[NREG - k][1], tuple):
                self.movi(NREG - k, self.val())
        if fn.rt in 'w3pv' and r.random() < 0.15:      # the same through the return address
            q = self.wr(avoid=(1,) + tuple(NREG - k for k in range(fn.keep)))
            if q is not None and q not in self.frozen:
                t, sp = 'r%d' % q, ['r', q]
                if fn.loc >= 8 and not any(x in self.lres for x in range(8)) and r.random() < 0.3:
                    t, sp = 's0', ['s', 0]
                self.emit('gra %s' % t, o='gra', d=sp)
                if sp[0] == 'r':
                    self.s.k[q] = ('c', None)
                    self.frozen.add(q)
                if self.s.k[1][0] != 'w' or isinstance(self.s.k[1][1], tuple) and 1 not in self.frozen:
                    self.movi(1, self.val())
                self.landing = (sp[0], sp[1])
                self.rto()
                return
        if fn.rt == 'v':
            self.emit('retv', o='ret', p='mov', a=['n'])
        elif fn.rt in 'df':
            w = 8 if fn.rt == 'd' else 4
            self.s.fl = None
            A = self.fsrc(w)
            self.emit('retf %d %s' % (w, A[0]), o='ret', p='mov', a=A[1])
        else:
            w = 4 if fn.rt == '3' else 8
            p = 'mov_p' if fn.rt == 'p' else r.choice(['mov'] * 3 + ['mov_u8', 'mov_s8', 'mov_u16', 'mov_s16'] + (['mov_u32', 'mov_s32'] if w == 8 else []))
            n = {'mov_u8': 1, 'mov_s8': 1, 'mov_u16': 2, 'mov_s16': 2, 'mov_u32': 4, 'mov_s32': 4}.get(p, w)
            A = self.src(w, r.choice('rrmi'), n=n)
            self.emit('ret %s %d %s' % (p, w, A[0]), o='ret', p=p, a=A[1])

    def function(self, fn, n):
        r = self.r
        self.label(fn.lab, r.random() < 0.3)
        self.enter(fn)
        self.serpoint()
        if r.random() < 0.2:
            self.setctx(fn)
        self.subs = []
        if fn.land:
            n = fn.landarg
            self.s.k[n] = ('c', None)
            c = r.randrange(3)
            if c == 0:
                cs = [q for q in self.regs() if q > NREG - fn.sv and q <= NREG - max(fn.keep, fn.keepmax) and q != n and self.s.k[q][0] == 'u'] or [n]
                q = r.choice(cs)
                if q != n:
                    self.emit('op1 mov 8 r%d r%d' % (q, n), o='op1', p='mov', w=8, d=['r', q], a=['r', n])
                    self.s.k[q] = ('c', None)
                self.landing = ('r', q)
            elif c == 1 and fn.loc >= 16:
                o = r.randrange(0, fn.loc - 7)
                self.emit('op1 mov 8 s%d r%d' % (o, n), o='op1', p='mov', w=8, d=['s', o], a=['r', n])
                self.lres |= set(range(o, o + 8))
                self.landing = ('s', o)
            if self.landing[0] == 'r':
                self.frozen.add(self.landing[1])
        # subroutines of this function, emitted behind it; their contracts first
        nsub = r.choice([0, 0, 1, 2]) if self.prof.get('ctl', 0) >= 5 else 0
        for _ in range(nsub):
            self.mksub()
        for q in self.regs():      # something to work with
            if self.s.k[q][0] == 'u' and r.random() < 0.6:
                self.movi(q, self.val(), r.choice('ww3'))
        for q in self.fregs():
            if self.s.f[q] == 'u' and r.random() < 0.4:
                self.fseti(q, r.choice([4, 8]))
        if fn.loc >= 8 and r.random() < 0.7:
            for o in r.sample(range(0, fn.loc - 7, 8), min(2, (fn.loc - 7 + 7) // 8)):
                v = self.val()
                self.emit('op1 mov 8 s%d i%s' % (o, HX(v)), o='op1', p='mov', w=8, d=['s', o], a=['i', B8(v)])
                self.s.li |= set(range(o, o + 8))
                self.lw |= set(range(o, o + 8))
        for k in range(n):
            if self.budget < 0:
                break
            self.simple()
            if r.random() < 0.15:
                self.serpoint()
        if r.random() < 0.15 and self.callees is not None:
            if self.call(tail=True):
                self.finsubs()
                return
        if fn.land and r.random() < 0.5:
            self.rto()
            self.finsubs()
            return
        if fn.dump:
            ks = [q for q in self.regs()]
            self.emit('dmp %d %d %d' % (fn.s, fn.sv, fn.fs), o='dmp', s=fn.s, sv=fn.sv, fs=fn.fs)
        self.ret()
        self.finsubs()

    def mksub(self):
        r = self.r
        fn = self.fn
        regs = self.regs()
        if not regs:
            return
        free = [q for q in regs if q > NREG - fn.sv + fn.keepmax or q <= fn.s]
        if not free:
            return
        need = {q: r.choice('w3') for q in r.sample(regs, min(len(regs), r.randrange(0, 3)))}
        slot = None
        ra = None
        if fn.loc >= 16 and r.random() < 0.5:
            slot = r.randrange(0, (fn.loc - 7) // 8) * 8
            self.slots = getattr(self, 'slots', set())
        else:
            c = [q for q in free if q not in need]
            if not c:
                return
            ra = r.choice(c)
        # its body is made now, kept aside, and appended later
        sv = (self.lines, self.ins, self.s, self.frozen, self.lres, self.nocall, self.subs, self.depth, self.last, self.budget)
        lab = self.newlabel()
        self.lines, self.ins, lw, self.lw = [], [], self.lw, set()
        lab0 = dict(enumerate(self.lab))
        self.s = St()
        self.s.k.update({q: (k, None) for q, k in need.items()})
        self.frozen = set() if ra is None else {ra}
        self.lres = set() if slot is None else set(range(slot, slot + 8))
        self.nocall, self.subs, self.depth, self.last = True, [], 2, None
        self.label(lab)
        A = ('r%d' % ra, ['r', ra]) if ra else ('s%d' % slot, ['s', slot])
        self.emit('fen %s' % A[0], o='fen', d=A[1])
        for _ in range(r.randrange(1, 5)):
            self.simple()
        self.emit('frt %s' % A[0], o='frt', a=A[1])
        # labels and jumps inside are relative to the piece
        inner = [i for i in range(len(self.lab)) if self.lab[i] != lab0.get(i, 0) or i >= len(lab0)]
        mod = {q for q in self.regs() if self.touched(self.ins, q)}
        fmod = {q for q in self.fregs() if self.ftouched(self.ins, q)}
        out = {q: (self.s.k[q][0], None) if self.s.k[q][0] in 'w3' else ('u', None) for q in mod}
        if ra:
            mod.add(ra)
            out[ra] = ('u', None)
        sub = dict(lab=lab, need=need, slot=slot, mod=mod, fmod=fmod, out=out, fout={q: self.s.f[q] for q in fmod}, lmod=self.lw | (set(range(slot, slot + 8)) if slot is not None else set()),
                   lines=self.lines, ins=self.ins, inner=inner, used=False)
        # a local the piece writes is not tracked outside
        self.lines, self.ins, self.s, self.frozen, self.lres, self.nocall, self.subs, self.depth, self.last, self.budget = sv
        self.budget -= len(sub['ins'])
        self.lw = lw
        self.subs.append(sub)

    def touched(self, ins, q):
        for i in ins:
            d = i.get('d')
            if isinstance(d, list) and d and d[0] == 'r' and q in d[1:] and not (i['o'] == 'mem' and i['st'] == 1) and i['o'] != 'ats':
                return True
            if i['o'] == 'op0' and q in (1, 2):
                return True
            if i['o'] == 'fcy' and i['st'] == 1 and i['a'][1] == q:
                return True
        return False

    def ftouched(self, ins, q):
        return any(isinstance(i.get('d'), list) and i['d'] and i['d'][0] == 'f' and i['d'][1] == q for i in ins)

    def setctx(self, fn):
        self.lines.append('ctx %d %d %s:%s %d %d %d %d' % (fn.ra, fn.keep, fn.rt, ''.join(fn.ts) or '-', fn.s, fn.sv, fn.fs, fn.loc))

    def finsubs(self):
        subs, self.subs = self.subs, []
        if subs and self.r.random() < 0.5:      # behind the functions that follow
            self.later.append((self.fn, subs))
        else:
            self.putsubs(subs)

    def flushsubs(self, all=False):
        for fn, subs in self.later:
            self.setctx(fn)
            self.putsubs(subs)
        self.later = []

    def putsubs(self, subs):
        for sub in subs:
            if self.r.random() < 0.3:
                self.fill()
            base = len(self.ins)
            for l in sub['inner']:
                self.lab[l] += base
            self.lines += sub['lines']
            self.ins += sub['ins']

    def dead(self):
        for n in self.fregs():
            self.s.f[n] = 'u'


def sx(v, w=4):
    return v - (1 << (8 * w)) if v >> (8 * w - 1) else v


class Decks:
    """shuffled lists of instruction forms, so that a run goes through all of them"""
    def __init__(self, rnd):
        self.r = rnd
        op2 = []
        for p in OP2:
            fls = [(0, -1)]
            if p == 'add':
                fls += [(1, -1), (0, 10), (1, 10), (0, 12), (1, 12)]
            elif p == 'sub':
                fls += [(1, -1)] + [(z, v) for z in (0, 1) for v in (2, 4, 6, 8, 10, 12)]
            elif p == 'mul':
                fls += [(0, 10)]
            elif p not in ('rotl', 'rotr'):
                fls += [(1, -1)]
            for w in (4, 8):
                for d in 'rmabn':
                    for a in 'rim':
                        for b in 'rima':
                            for f in fls:
                                if d == 'n' and f == (0, -1):
                                    continue
                                if (f == (0, -1) or p == 'sub') and rnd.random() < 0.4:
                                    continue
                                op2.append((p, w, (d, a, b), f))
        op1 = []
        for p, w in [('mov', 8), ('mov', 4), ('mov_u8', 8), ('mov_s8', 8), ('mov_u16', 8), ('mov_s16', 8), ('mov_u32', 8), ('mov_s32', 8), ('mov_p', 8), ('mov_u8', 4), ('mov_s8', 4), ('mov_u16', 4), ('mov_s16', 4),
                     ('clz', 8), ('clz', 4), ('ctz', 8), ('ctz', 4), ('rev', 8), ('rev', 4), ('rev_u16', 8), ('rev_s16', 8), ('rev_u32', 8), ('rev_s32', 8), ('rev_u16', 4), ('rev_s16', 4)]:
            for d in 'rma':
                for a in 'rim':
                    op1.append((p, w, d, a))
        shi = [(p, w, c) for p in ('shl', 'mshl', 'lshr', 'mlshr') for w in (4, 8) for c in 'rim']
        fop = []
        for c in ('mov', 'neg', 'abs', 'add', 'sub', 'mul', 'div', 'copysign', 'cvt', 'toint', 'fromint', 'cmp', 'cmp', 'set', 'copy', 'mem'):
            for w in (4, 8):
                for d in 'rm':
                    for a in 'rm':
                        for b in 'rm':
                            fop.append((c, w, d, a, b))
        opf = [(p, w, z, q) for p in ('mov', 'and', 'or', 'xor') for w in (4, 8) for z in (0, 1) for q in range(1, NREG + 1) if p != 'mov' or not z]
        rto = list(range(2, NREG + 1))
        cnt = [(p, w, v) for p in ('clz', 'ctz') for w in (4, 8) for v in (0, 0, 1, 2, 1 << 8 * w - 1, 3 << 8 * w - 3, 1 << 31, (1 << 8 * w) - 1)]
        self.d = {'cnt': cnt, 'op2': op2, 'op1': op1, 'shi': shi, 'fop': fop, 'opf': opf, 'rto': rto}
        self.full = {k: list(v) for k, v in self.d.items()}
        for k in self.d:
            rnd.shuffle(self.d[k])

    def next(self, k):
        if not self.d[k]:
            self.d[k] = list(self.full[k])
            self.r.shuffle(self.d[k])
        return self.d[k].pop()

    def take(self, k, fits):
        """the next form that fits"""
        d = self.d[k]
        for i in range(len(d) - 1, -1, -1):
            if fits(d[i]):
                x = d.pop(i)
                if not d:
                    d += self.full[k]
                    self.r.shuffle(d)
                return x
        d += self.full[k]
        self.r.shuffle(d)
        for i in range(len(d) - 1, -1, -1):
            if fits(d[i]):
                return d.pop(i)
        return None


PROFS = {
    'int': {'op2': 50, 'op1': 18, 'op0': 4, 'muladd': 2, 'shi': 8, 'mem': 6, 'atomic': 3, 'lb': 2, 'const': 1, 'ctl': 2, 'misc': 1},
    'float': {'float': 60, 'op2': 8, 'op1': 5, 'mem': 2, 'ctl': 4, 'lb': 1},
    'ctl': {'op2': 12, 'op1': 8, 'ctl': 30, 'const': 4, 'float': 4, 'mem': 2, 'lb': 1, 'misc': 1, 'shi': 1, 'rob': 6},
}


def sweep(rnd, cid, lo, hi):
    """one program with control flow, with every amount of code from lo to hi bytes put between its parts"""
    seed = rnd.getrandbits(40)
    out = []
    for n in range(lo, hi):
        import random
        r = random.Random(seed)
        g = Gen(r, '%s_%d' % (cid, n), {'ctl': 30, 'op2': 10, 'op1': 8}, Decks(r))
        g.ser, g.fillfix = 0.0, n
        out.append(build(g, r, 'ctl'))
    return out


def case(rnd, cid, kind, decks, ser=0.0):
    prof = PROFS[kind]
    for _ in range(20):
        g = Gen(rnd, cid, prof, decks)
        g.ser = ser
        try:
            return build(g, rnd, kind)
        except IndexError:
            raise
    raise RuntimeError('no case')


def build(g, r, kind):
    nf = 1 if kind != 'ctl' else r.choice([1, 2, 3, 3])
    fns = []
    for i in range(nf):
        ra = int(i > 0 and r.random() < 0.4)
        sv = r.randrange(0, 7)
        s = r.randrange(2 if kind == 'float' else 3, NREG - sv + 1)
        fs = r.choice([0, 2, 4, 15]) if kind != 'float' else r.choice([2, 3, 4, 8, 15])
        keep = min(r.choice([0, 0, 1, 2, 3]), sv) if ra else 0
        ts = []
        ni = ns = nfl = 0
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            t = r.choice('ww3pdfWTP' if i or True else 'w')
            if ra:
                t = {'w': 'W', '3': 'T', 'p': 'P'}.get(t, t)
            if t in 'df':
                if nfl + 1 > fs:
                    continue
                nfl += 1
            elif t in 'WTP':
                if ni + 1 > s:
                    continue
                ni += 1
            else:
                if ns + 1 > sv:
                    continue
                ns += 1
                ni += 1
            ts.append(t)
        land = landarg = 0
        ws = [k for k, t in enumerate(ts) if t in 'wpWP']
        if i > 0 and ws and r.random() < 0.4:      # an address to go to comes with the call
            k = r.choice(ws)
            land = 1 + sum(t in 'w3pWTP' for t in ts[:k])
            landarg = land if ts[k] in 'WP' else NREG - sum(t in 'w3p' for t in ts[:k])
        loc = r.choice([0, 0, 8, 16, 24, 40, 64, 100, 256]) if kind != 'ctl' else r.choice([0, 8, 16, 32, 48, 64])
        if r.random() < 0.02:
            loc = 5000
        fns.append(Fn(i=i, ra=ra, keep=keep, sv=sv, s=s, fs=fs, ts=ts, loc=min(loc, 256), rt=r.choice('www3pdfv' if fs else 'www3pv'), lab=g.newlabel(), dump=int(i == 0 or r.random() < 0.2), keepmax=0, land=land, landarg=landarg))
    for f in fns:
        f.keepmax = min(3, f.sv) if any(h.keep for h in fns) else 0
    g.ncalls_to = {}
    if kind == 'ctl' and r.random() < 0.5:
        g.planbufs()
    order = list(range(nf))
    if r.random() < 0.5:
        order.reverse()
    for i in order:
        g.callees = [h for h in fns if h.i > i] if kind == 'ctl' else []
        g.budget = {'int': 70, 'float': 60, 'ctl': 60 if i == 0 else 30}[kind]
        g.function(fns[i], {'int': r.randrange(12, 30), 'float': r.randrange(12, 28), 'ctl': r.randrange(4, 14) if i == 0 else r.randrange(1, 6)}[kind])
        if r.random() < 0.5:
            g.fill()
        if r.random() < 0.5:
            g.putbuf()
        g.serpoint()
        if r.random() < 0.3:
            g.flushsubs()
    g.putbuf(True)
    g.flushsubs()
    f = fns[0]
    acts, alines = [], []
    targ = {'w': 'w', '3': 'w', 'p': 'w', 'W': 'w', 'T': 'w', 'P': 'w', 'd': 'd', 'f': 'f'}

    def run():
        vals = []
        for t in f.ts:
            vals.append(g.fval(8) if t == 'd' else g.fval(4) | 0x55aa55aa << 32 if t == 'f' else g.val())
        tt = ''.join(targ[t] for t in f.ts) or '-'
        alines.append('run %d %s %s' % (f.lab, tt, ' '.join(bytes(B8(v)).hex() for v in vals)))
        acts.append({'a': 'run', 'lab': f.lab, 'arg': [B8(v) for v in vals]})

    def setbufs(first):
        for k, b in enumerate(g.bufs):
            if first or r.random() < 0.5:
                n = b['size'] if first and r.random() < 0.7 else r.randrange(1, b['size'] + 1)
                off = r.randrange(b['size'] - n + 1)
                v = [r.randrange(256) for _ in range(n)]
                alines.append('setbuf %d %d %s' % (b['lid'], off, bytes(v).hex()))
                acts.append({'a': 'setbuf', 'k': k + 1, 'off': off, 'v': v})
    setbufs(True)
    run()
    for _ in range(r.choice([0, 1, 1, 2])):
        if g.con and r.random() < 0.8:
            for j in range(len(g.con)):
                if r.random() < 0.6:
                    v = g.constval(*g.cinfo[j])
                    alines.append('setconst %d %s' % (j, HX(v)))
                    acts.append({'a': 'setconst', 'j': j, 'v': B8(v)})
        for j in sorted(g.alt):
            if g.rw[j] and r.random() < 0.5:
                l = g.alt[j] if r.random() < 0.7 else g.jt[j]
                alines.append('setjump %d %d' % (j, l))
                acts.append({'a': 'setjump', 'j': j, 'l': l})
        setbufs(False)
        run()
    hl = ['host %d %s' % (h, ''.join(ts) or '-') for h, (ts, rt) in sorted(g.hosts.items())]
    rets = [g.r.choice(INTS) if g.r.random() < 0.5 else g.r.choice(DBL) for _ in range(5)]
    lines = ['region %d %x %d %s' % (k + 1, g.base[k], g.len[k], bytes(g.mem[k]).hex()) for k in range(3)]
    lines += ['rets ' + ' '.join(bytes(B8(v)).hex() for v in rets)] + hl + ['jt ' + ' '.join(map(str, g.jt))] + g.lines + ['gen'] + alines
    spec = {'id': g.id, 'ins': g.ins, 'lab': g.lab, 'base': [B8(b) for b in g.base], 'mem': g.mem, 'con': [B8(v) for v in g.con] + [[-1] * b['size'] for b in g.bufs], 'nc': len(g.con), 'jt': g.jt, 'rets': [B8(v) for v in rets], 'acts': acts}
    return lines, spec


def attach(spec, obs):
    """what was observed, into the actions of the case"""
    runs = [o for o in obs if o.get('e') == 'run']
    bad = [o for o in obs if o.get('e') in ('crash', 'err')]
    k = 0
    for a in spec['acts']:
        if a['a'] != 'run':
            continue
        if k < len(runs):
            o = runs[k]
            a.update(crash='', cs=o['cs'], calls=[[c[0]] + [list(bytes.fromhex(x)) if len(x) == 16 else [] for x in c[1:]] if isinstance(c[0], int) else [0] for c in o['calls']],
                     r=list(bytes.fromhex(o['r'])), f=list(bytes.fromhex(o['f'])), mem=[list(bytes.fromhex(x)) for x in o['mem']])
        else:
            w = bad[0] if bad else {'e': 'nothing'}
            a.update(crash='signal %d' % w['sig'] if w['e'] == 'crash' else 'error %d' % w['code'] if w['e'] == 'err' else 'no result', cs=1, calls=[], r=[0] * 8, f=[0] * 8, mem=[[], [], []])
        k += 1
    return spec
