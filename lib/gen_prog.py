"""Random valid programs.  One recursive, typed generator whose weights are set by a profile, so that each property gets
programs that are dense in what it is about.  Programs always terminate, never trap and stay within pwart's documented
limits; values and effects are observed through results, host calls, globals, memories and tables."""
import struct
from wasm import *
from gen_num import ival, fval, pk

I, J, F, D, R = 'i', 'I', 'f', 'F', 'r'
BINI = {'i': [0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78],
        'I': [0x7c, 0x7d, 0x7e, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a],
        'f': [0x92, 0x93, 0x94, 0x96, 0x97, 0x98], 'F': [0xa0, 0xa1, 0xa2, 0xa4, 0xa5, 0xa6]}
UNI = {'i': [0x67, 0x68, 0x69, 0xc0, 0xc1], 'I': [0x79, 0x7a, 0x7b, 0xc2, 0xc3, 0xc4],
       'f': [0x8b, 0x8c, 0x8d, 0x8e, 0x90], 'F': [0x99, 0x9a, 0x9b, 0x9c, 0x9e]}
DIV = {'i': [0x6d, 0x6e, 0x6f, 0x70], 'I': [0x7f, 0x80, 0x81, 0x82]}
CMPI = {'i': list(range(0x46, 0x50)), 'I': list(range(0x51, 0x5b)), 'f': list(range(0x5b, 0x61)), 'F': list(range(0x61, 0x67))}
LOADS = {'i': [(40, 4), (44, 1), (45, 1), (46, 2), (47, 2)], 'I': [(41, 8), (48, 1), (49, 1), (50, 2), (51, 2), (52, 4), (53, 4)],
         'f': [(42, 4)], 'F': [(43, 8)]}
STORES = {'i': [(54, 4), (58, 1), (59, 2)], 'I': [(55, 8), (60, 1), (61, 2), (62, 4)], 'f': [(56, 4)], 'F': [(57, 8)]}

BASE = dict(
    nfn=(3, 5), params=(0, 5), locals=(0, 7), results=(0, 1), depth=3, stmts=(2, 5), cap=22, budget=350, calls=3,
    types='iIfF', cfg=None, recursion=0.15, tail=0.15, multi=False, nmem=(1, 1), nhost=2, ntab=1, globs=(2, 5),
    pad=False, memflag=0.3, m64=0.15, many=0,
    # weights of expressions
    e_const=3, e_local=6, e_global=2, e_un=2, e_bin=6, e_div=1, e_cmp=3, e_select=2, e_load=2, e_block=1, e_if=1, e_loop=0.5,
    e_call=2, e_icall=1, e_tee=1.5, e_conv=1, e_msize=0.3, e_mgrow=0, e_tsize=0.2, e_isnull=0.3, e_brif=0.7, e_seq=2, e_dead=0.6, e_brt=0.4,
    # weights of statements
    s_set=5, s_gset=2, s_store=2, s_drop=1, s_if=2, s_block=1.5, s_loop=0.8, s_call=1, s_probe=1.5, s_brif=1, s_brt=0.6, s_nop=0.2,
    s_fill=0, s_copy=0, s_tset=0, s_dead=0.6, s_ret=0.2, s_swap=1, s_carry=0.8, s_pile=0, s_unr=0.3, e_unr=0.2, epilogue=0.5, reenter=0,
)

PROFILES = {
    'control': dict(e_block=5, e_if=5, e_loop=3, e_brif=5, e_dead=5, e_brt=4, s_if=5, s_block=5, s_loop=3, s_brif=4, s_brt=3, s_dead=3, s_ret=1, s_carry=4, s_unr=1, e_unr=0.7,
                    e_call=0.7, e_icall=0.2, e_load=0.3, s_store=0.4, depth=4, types='iIfF', results=(0, 1)),
    'locals': dict(params=(0, 12), locals=(0, 24), many=0.05, s_set=9, e_local=12, e_tee=4, s_swap=6, e_seq=5, e_bin=3, e_load=0.3, s_store=0.3, e_global=1, recursion=0.4,
                   s_if=3, s_loop=2, s_carry=3),
    'pending': dict(depth=6, cap=25, e_bin=10, e_seq=6, e_call=2, e_cmp=4, e_select=4, e_block=2, e_if=2, e_div=3, e_mgrow=0.5, e_msize=1, e_const=1, e_un=1,
                    stmts=(1, 2), budget=450, s_call=2, nfn=(2, 4), multi=True, s_carry=1.5, s_pile=1),
    'calls': dict(nfn=(5, 9), params=(0, 9), results=(0, 1), multi=True, e_call=8, e_icall=6, s_call=6, s_probe=4, recursion=0.5, tail=0.5, depth=3,
                  e_block=0.5, e_if=0.7, s_if=1, e_brt=0.1, nhost=5, types='iIfFr', budget=500, reenter=0.4),
    'memory': dict(nmem=(1, 3), e_load=12, s_store=12, e_const=4, e_bin=3, e_msize=0.5, e_mgrow=0.4, s_fill=0.5, s_copy=0.5, e_block=0.5, e_if=0.7, memflag=0.6, m64=0.35),
    'bulk': dict(nmem=(1, 3), e_load=3, s_store=4, s_fill=6, s_copy=8, s_tset=3, ntab=2, m64=0.4, stmts=(3, 6)),
    'globals': dict(globs=(4, 12), e_global=9, s_gset=9, types='iIfFr', reenter=0.2),
    'mix': dict(multi=True, reenter=0.15, e_mgrow=0.3, s_fill=0.4, s_copy=0.4, s_tset=0.5, types='iIfFr', nmem=(1, 2), ntab=2),
}


class Fn:
    pass


class ProgGen:
    def __init__(self, rnd, prof, **over):
        self.r = rnd
        self.o = dict(BASE)
        if isinstance(prof, str):
            self.o.update(PROFILES[prof])
        else:
            self.o.update(prof)
        self.o.update(over)
        self.ew = [(k[2:], v) for k, v in self.o.items() if k.startswith('e_')]
        self.sw = [(k[2:], v) for k, v in self.o.items() if k.startswith('s_')]

    def rng(self, k):
        a = self.o[k]
        return self.r.randint(a[0], a[1])

    def ty(self):
        return self.r.choice(self.o['types'])

    def pick(self, ws):
        t = sum(w for _, w in ws)
        x = self.r.random() * t
        for k, w in ws:
            x -= w
            if x < 0:
                return k
        return ws[-1][0]

    # ---------------------------------------------------------------- module level
    def program(self):
        r, o = self.r, self.o
        m = self.m = Module()
        self.hosts = []
        for k in range(o['nhost']):
            if k < 2:
                p = 'iI' if k == 0 else 'fF'
                p, res = (self.ty(),), ''
                p = ''.join(p)
            else:
                p = ''.join(self.ty() for _ in range(r.randint(0, 5)))
                res = ''.join(self.ty() for _ in range(r.randint(0, 2 if o['multi'] else 1)))
            m.imports.append(('host', 'h%d' % k, 0, m.type(p, res)))
            self.hosts.append((p, res))
        for t in 'iIfFr':         # a probe for each type
            if t in o['types']:
                k = len(self.hosts)
                m.imports.append(('host', 'h%d' % k, 0, m.type(t, '')))
                self.hosts.append((t, ''))
        self.nh = len(self.hosts)
        nmem = self.rng('nmem')
        m.mems = [(1, r.choice([1, 2, 3]), r.random() < o['m64']) for _ in range(nmem)]
        # globals
        for k in range(self.rng('globs') if r.random() > 0.04 else r.choice([13, 36, 40, 70, 132])):
            t = self.ty()
            m.globs.append((t, True, [self.constant(t)]))
        # function signatures
        self.sigs = list(self.hosts)
        self.cost = [2] * self.nh
        n = self.rng('nfn')
        plan = []
        for k in range(n):
            if plan and r.random() < 0.3:
                plan.append(r.choice(plan))
                continue
            p = ''.join(self.ty() for _ in range(self.rng('params')))
            nr = self.rng('results')
            if o['multi'] and r.random() < 0.3:
                nr = r.randint(0, 4)
            plan.append((p, ''.join(self.ty() for _ in range(nr))))
        # table: groups of functions with equal type
        bysig = {}
        for k, s in enumerate(plan):
            bysig.setdefault(s, []).append(self.nh + k)
        self.slots = []
        for s, fs in bysig.items():
            for _ in range(r.randint(1, 2)):
                self.slots.append((r.choice(fs), s))
        for k in range(self.nh):
            if r.random() < 0.4:
                self.slots.append((k, self.hosts[k]))
        r.shuffle(self.slots)
        self.spare = len(self.slots)
        tsz = self.spare + 6
        m.tables = [(tsz, tsz)] + [(8, 8) for _ in range(o['ntab'] - 1 if o['ntab'] < 2 or r.random() > 0.08 else r.choice([5, 12, 36, 40, 130]))]
        if self.slots:
            m.elems.append((r.choice([0, 2]), 0, [i32(0)], [[(210, f)] for f, _ in self.slots]))
        self.recfn = set()
        for k, s in enumerate(plan):
            self.function(s)
        for k in range(n):
            m.exports.append(('f%d' % (self.nh + k), 0, self.nh + k))
        for k in range(len(m.mems)):
            m.exports.append(('m%d' % k, 2, k))
        for k in range(len(m.globs)):
            m.exports.append(('g%d' % k, 3, k))
        for k in range(len(m.tables)):
            m.exports.append(('t%d' % k, 1, k))
        return m

    def constant(self, t):
        r = self.r
        if t == 'r':
            return (208, 'r')
        if t in 'iI':
            return const(t, ival(r, t))
        return const(t, fval(r, t, nan=False) if r.random() < 0.3 else pk_f(t, r.choice([0.0, 1.0, -1.0, 0.5, 2.0, -3.25, 100.0, 7.75, -0.0, 1024.5])))

    # ---------------------------------------------------------------- function level
    def function(self, sig):
        r, o = self.r, self.o
        p, res = sig
        f = self.f = Fn()
        f.p, f.res = p, res
        nl = r.randint(100, 235) if r.random() < o['many'] else self.rng('locals')   # the declared limit is 255
        f.ts = list(p) + [self.ty() for _ in range(nl)]
        f.np = len(p)
        f.fixed = set()           # locals that only dedicated code writes
        f.labels = []             # innermost last: dict(t=type or '', kind)
        f.pend = 0
        f.mult = 1
        f.cost = 0
        f.idx = len(self.sigs)
        f.depth = 0
        body = []
        rec = p and p[0] == 'i' and r.random() < o['recursion'] and len(p) + 2 <= o['cap'] - 4
        if rec:
            f.fixed.add(0)
        for _ in range(self.rng('stmts')):
            body += self.stmt(o['depth'])
        if rec:
            # fuel: if ((x & 3) != 0 and x <= 3) { args with x-1; self(); results to locals }
            fu = 0
            args = [(32, fu), i32(1), (0x6b,)]
            f.pend += 1
            for t in p[1:]:
                args += self.expr(t, 1)
                f.pend += 1
            f.pend -= len(p)
            inner = args + [(16, f.idx)] + self.sink(res)
            body += [(32, fu), i32(0), (0x4b,), (32, fu), i32(3), (0x4d,), (0x71,), ('if', '', inner, None)]
            f.cost *= 4
            for _ in range(r.randint(0, 2)):
                body += self.stmt(2)
        if r.random() < o['epilogue']:
            body += self.epilogue()
        if r.random() < o['tail'] and self.tails(res) and not rec:
            k = r.choice(self.tails(res))
            if k[0] == 'i':
                s = k[1]
                f.cost += self.cost[self.slots[s][0]] * f.mult
                body += self.args(self.slots[s][1][0], 1) + [i32(s), (19, self.m.type(*self.slots[s][1]), 0)]
            else:
                f.cost += self.cost[k[1]] * f.mult
                body += self.args(self.sigs[k[1]][0], 1) + [(18, k[1])]
        else:
            for t in res:
                body += self.expr(t, o['depth'])
                f.pend += 1
            if r.random() < 0.15:
                body += [(15,)]
                if r.random() < 0.3:
                    body += [(0,)]
            elif r.random() < 0.1 and len(res) >= 0:
                body += [(12, 0)]
        self.m.funcs.append((self.m.type(p, res), ''.join(f.ts[f.np:]), body))
        self.sigs.append(sig)
        self.cost.append(f.cost + 3)
        f.rec = rec
        if rec:
            self.recfn.add(f.idx)

    def tails(self, res):
        f = self.f
        out = [('d', k) for k in range(self.nh, f.idx) if self.sigs[k][1] == res and len(self.sigs[k][0]) + f.pend < self.o['cap'] - 2 and self.afford(self.cost[k])]
        out += [('i', s) for s, (fn, sg) in enumerate(self.slots) if fn < f.idx and sg[1] == res and len(sg[0]) + f.pend < self.o['cap'] - 3
                and self.afford(self.cost[fn])]
        return out

    def afford(self, c):
        return self.f.cost + c * self.f.mult <= self.o['budget']

    def pay(self, c=1):
        self.f.cost += c * self.f.mult

    def newlocal(self, t, fixed=False):
        f = self.f
        f.ts.append(t)
        if fixed:
            f.fixed.add(len(f.ts) - 1)
        return len(f.ts) - 1

    def locals_of(self, t, write=False):
        f = self.f
        return [k for k, x in enumerate(f.ts) if x == t and not (write and k in f.fixed)]

    # ---------------------------------------------------------------- expressions
    def leaf(self, t):
        r = self.r
        self.pay()
        ls = self.locals_of(t)
        gs = [k for k, g in enumerate(self.m.globs) if g[0] == t]
        x = r.random()
        if ls and x < 0.55:
            return [(32, r.choice(ls))]
        if gs and x < 0.7:
            return [(35, r.choice(gs))]
        if t == 'r' and x < 0.85 and self.f.idx > 0:
            return [(210, r.randrange(self.f.idx))]
        return [self.constant(t)]

    def sub(self, *ts_d):
        """evaluate operands left to right, keeping count of what is pending"""
        out = []
        for t, d in ts_d:
            out += self.expr(t, d)
            self.f.pend += 1
        self.f.pend -= len(ts_d)
        return out

    def args(self, p, d):
        return self.sub(*[(t, self.r.randint(0, max(d, 0))) for t in p])

    def sink(self, ts):
        """consume the values of types ts on the stack"""
        out = []
        for t in reversed(ts):
            ls = self.locals_of(t, True)
            gs = [k for k, g in enumerate(self.m.globs) if g[0] == t]
            x = self.r.random()
            if ls and x < 0.55:
                out.append((33, self.r.choice(ls)))
            elif gs and x < 0.8:
                out.append((36, self.r.choice(gs)))
            else:
                out.append((26,))
            self.pay()
        return out

    def room(self, n):
        return self.f.pend + n <= self.o['cap']

    def expr(self, t, d):
        f, r = self.f, self.r
        if d <= 0 or not self.room(4) or f.cost > self.o['budget']:
            return self.leaf(t)
        for _ in range(6):
            k = self.pick(self.ew)
            b = getattr(self, 'E_' + k)(t, d)
            if b is not None:
                self.pay()
                return b
        return self.leaf(t)

    def E_const(self, t, d):
        return [self.constant(t)]

    def E_local(self, t, d):
        ls = self.locals_of(t)
        return [(32, self.r.choice(ls))] if ls else None

    def E_global(self, t, d):
        gs = [k for k, g in enumerate(self.m.globs) if g[0] == t]
        return [(35, self.r.choice(gs))] if gs else None

    def E_un(self, t, d):
        if t == 'r':
            return None
        return self.expr(t, d - 1) + [(self.r.choice(UNI[t]),)]

    def E_bin(self, t, d):
        if t == 'r':
            return None
        return self.sub((t, d - 1), (t, d - 1)) + [(self.r.choice(BINI[t]),)]

    def E_div(self, t, d):
        if t not in 'iI':
            return None
        x = self.sub((t, d - 1), (t, d - 1))
        mx, AND, OR = (i32(0x7fffffff), (0x71,), (0x72,)) if t == 'i' else (i64(2**63 - 1), (0x83,), (0x84,))
        one = i32(1) if t == 'i' else i64(1)
        if self.r.random() < 0.3:
            x = self.sub((t, d - 1)) + [const(t, pk(t, self.r.choice([1, 2, 3, 7, 10, 16, 255, 1000])))]
        else:
            x += [mx, AND, one, OR]
            self.pay(4)
        return x + [(self.r.choice(DIV[t]),)]

    def cond(self, d):
        """an i32 condition, often a comparison that the code generator fuses"""
        r = self.r
        if d <= 0:
            return self.leaf('i')
        if r.random() < 0.7:
            c = r.choice([t for t in self.o['types'] if t != 'r'])
            b = self.sub((c, d - 1), (c, d - 1)) + [(r.choice(CMPI[c]),)]
            self.pay()
            if r.random() < 0.15:
                b += [(0x45,)]
                self.pay()
            return b
        if r.random() < 0.3:
            b = self.expr(r.choice('iI'), d - 1)
            return self.expr('i', d - 1) + [(0x45,)]
        return self.expr('i', d - 1)

    def E_cmp(self, t, d):
        return self.cond(d) if t == 'i' else None

    def E_select(self, t, d):
        a = self.sub((t, d - 1), (t, d - 1))
        self.f.pend += 2
        c = self.cond(d - 1)
        self.f.pend -= 2
        return a + c + [(28, t) if t == 'r' or self.r.random() < 0.3 else (27,)]

    def wide(self, m, code, n=None):
        """an i32 operand as memory m wants it"""
        if not self.m.is64(m):
            return code
        if len(code) == 1 and code[0][0] == 65:
            return [(66, code[0][1] + (b'\xff' if code[0][1][3] & 0x80 else b'\0') * 4)]
        self.pay()
        return code + [(0xad if self.r.random() < 0.7 else 0xac,)]

    def mask(self, m, d, v):
        """an operand for memory m below v + 1"""
        if self.m.is64(m) and 'I' in self.o['types'] and self.r.random() < 0.6:
            return self.expr('I', d) + [(66, struct.pack('<q', v)), (0x83,)]
        return self.wide(m, self.expr('i', d) + [i32(v), (0x71,)])

    def addr(self, d, w, flt, m):
        """address expression and offset inside the first page; float cells are kept apart from integer cells"""
        r = self.r
        lo = 1024 if flt else 0
        if r.random() < 0.3:
            a, off = self.wide(m, [i32(lo + r.randrange(0, 1000))]), r.choice([0, 0, 1, 4, 8, 15])
        elif r.random() < 0.12:
            k = r.randint(0, 40)
            lo = 65280 if not flt else 61440
            a, off = self.wide(m, [i32(lo + k)]), r.choice([0, 256 - w - k])
            self.pay()
            return a, off
        else:
            a = self.mask(m, d - 1, r.choice([0x1f, 0x3f, 0x3e, 0x1ff]))
            off = lo + r.choice([0, 1, 3, 16, 100, 500])
            self.pay(3)
            if r.random() < 0.25:
                a += [(66, struct.pack('<q', off)), (0x7c,)] if self.m.is64(m) else [i32(off), (0x6a,)]
                off = 0
        return a, off

    def memop(self, op, m, off):
        return (op, m, off, self.r.random() < self.o['memflag'])

    def E_load(self, t, d):
        if t == 'r':
            return None
        op, w = self.r.choice(LOADS[t])
        m = self.r.randrange(len(self.m.mems))
        a, off = self.addr(d, w, t in 'fF', m)
        return a + [self.memop(op, m, off)]

    def E_conv(self, t, d):
        r = self.r
        if t == 'r':
            return None
        if t == 'i':
            k = r.randrange(3)
            if k == 0:
                return self.expr('I', d - 1) + [(0xa7,)]
            if k == 1:
                return self.expr('i', d - 1) + [(0xb7,), (0xaa,)]
            return self.expr('i', d - 1) + [i32(0xffffff), (0x71,), (0xb2,), (0xa8,)]
        if t == 'I':
            k = r.randrange(3)
            if k < 2:
                return self.expr('i', d - 1) + [(0xac + k,)]
            return self.expr('i', d - 1) + [(0xb7,), (0xb0,)]
        if t == 'f':
            k = r.randrange(4)
            s = 'iiIF'[k]
            return self.expr(s, d - 1) + [([0xb2, 0xb3, 0xb4, 0xb6][k],)]
        k = r.randrange(4)
        return self.expr('iiIf'[k], d - 1) + [([0xb7, 0xb8, 0xb9, 0xbb][k],)]

    def E_msize(self, t, d):
        ms = [k for k in range(len(self.m.mems)) if t == ('I' if self.m.is64(k) else 'i')]
        return [(63, self.r.choice(ms))] if ms else None

    def E_mgrow(self, t, d):
        ms = [k for k in range(len(self.m.mems)) if t == ('I' if self.m.is64(k) else 'i')]
        if not ms:
            return None
        m = self.r.choice(ms)
        v = self.r.choice([0, 1, 1, 3, -1])
        if t == 'I':
            return self.expr('I', 0) + [(66, struct.pack('<q', v)), (0x83,), (64, m)]
        return self.expr('i', 0) + [i32(v), (0x71,), (64, m)]

    def E_tsize(self, t, d):
        return [(FC + 16, self.r.randrange(len(self.m.tables)))] if t == 'i' else None

    def E_isnull(self, t, d):
        return self.expr('r', d - 1) + [(209,)] if t == 'i' and 'r' in self.o['types'] else None

    def E_tee(self, t, d):
        ls = self.locals_of(t, True)
        return self.expr(t, d - 1) + [(34, self.r.choice(ls))] if ls else None

    def E_seq(self, t, d):
        """a value, then statements while it is pending"""
        a = self.expr(t, d - 1)
        self.f.pend += 1
        s = self.stmt(d - 1)
        self.f.pend -= 1
        return a + s

    def inlabel(self, t, kind, g):
        self.f.labels.append(dict(t=t, kind=kind, pend=self.f.pend))
        b = g()
        self.f.labels.pop()
        return b

    def E_block(self, t, d):
        return [('block', t, self.inlabel(t, 'block', lambda: self.bodyv(t, d - 1)))]

    def bodyv(self, t, d):
        b = []
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            b += self.stmt(d)
        return b + self.expr(t, d)

    def E_if(self, t, d):
        c = self.cond(d - 1)
        a = self.inlabel(t, 'if', lambda: self.bodyv(t, d - 1))
        b = self.inlabel(t, 'if', lambda: self.bodyv(t, d - 1))
        return c + [('if', t, a, b)]

    def E_loop(self, t, d):
        return self.loop(t, d)

    def loop(self, t, d):
        f, r = self.f, self.r
        n = r.choice([1, 2, 2, 3])
        if f.mult * n > 9:
            return None
        c = self.newlocal('i', True)
        f.mult *= n
        f.labels.append(dict(t='', kind='loop', ctr=c, n=n, pend=f.pend))
        b = []
        for _ in range(r.randint(1, 2)):
            b += self.stmt(d - 1)
        tail = []
        if t:
            tail = self.expr(t, d - 1)
        if t and r.random() < 0.4:
            # the value is computed while the back branch is taken above it
            f.pend += 1
            b += tail + [(32, c), i32(1), (0x6a,), (34, c), i32(n), (0x48,), (13, 0)]
            f.pend -= 1
        else:
            b += [(32, c), i32(1), (0x6a,), (34, c), i32(n), (0x48,), (13, 0)] + tail
        self.pay(7)
        f.labels.pop()
        f.mult //= n
        return [i32(0), (33, c), ('loop', t, b)]

    def targets(self, t):
        """depths of labels that take exactly one value of type t (or none for '')"""
        f = self.f
        out = []
        for k, lb in enumerate(reversed(f.labels)):
            if lb['kind'] != 'loop' and lb['t'] == t:
                out.append(k)
        if f.res == t:
            out.append(len(f.labels))
        return out

    def surplus(self, n=2):
        """operands left below a branch"""
        out, ts = [], []
        while len(ts) < n and self.r.random() < 0.5 and self.room(4):
            t = self.ty()
            out += self.leaf(t) if self.r.random() < 0.6 else self.expr(t, 1)
            ts.append(t)
            self.f.pend += 1
        self.f.pend -= len(ts)
        return out, ts

    def E_brif(self, t, d):
        """value ; condition ; br_if : the value stays when the branch is not taken"""
        ds = self.targets(t)
        if not ds:
            return None
        a = self.expr(t, d - 1)
        self.f.pend += 1
        c = self.cond(d - 1)
        self.f.pend -= 1
        return a + c + [(13, self.r.choice(ds))]

    def deadcode(self, t):
        """unreachable code that leaves one value of type t (polymorphic below)"""
        r = self.r
        k = r.random()
        save = self.f.cost
        if k < 0.25:
            b = []
        elif k < 0.35:
            b = [(0,)]
        elif k < 0.6:
            b = self.leaf(t) if t else []
        elif k < 0.8:
            b = self.stmt(1) + (self.leaf(t) if t else [])
        else:
            # uses operands that are not there
            b = [(26,)] * r.randint(1, 2) + (self.leaf(t) if t else [])
            if t and t != 'r' and r.random() < 0.5:
                b = [(r.choice(BINI[t]),)]
        self.f.cost = save
        return b

    def E_dead(self, t, d):
        """the value is produced by a branch to an enclosing label of type t from inside a nested block"""
        f, r = self.f, self.r
        def g():
            ds = self.targets(t)
            if not ds:
                ds = [0]
            sp, ts = self.surplus()
            f.pend += len(ts)
            b = sp + self.expr(t, d - 1)
            f.pend -= len(ts)
            k = r.random()
            if f.res == t and k < 0.2:
                b += [(15,)]
            else:
                b += [(12, r.choice(ds))]
            return b + self.deadcode(t)
        if r.random() < 0.5 and d > 1:
            c = self.cond(d - 2)
            x = self.inlabel(t, 'if', g)
            y = self.inlabel(t, 'if', lambda: self.bodyv(t, d - 1))
            if r.random() < 0.5:
                x, y = y, x
            return c + [('if', t, x, y)]
        return [('block', t, self.inlabel(t, 'block', g))]

    def E_brt(self, t, d):
        """br_table with a value"""
        f, r = self.f, self.r
        def g():
            ds = self.targets(t)
            sp, ts = self.surplus()
            f.pend += len(ts)
            v = self.expr(t, d - 1)
            f.pend += 1
            i = self.index(d)
            f.pend -= 1 + len(ts)
            n = r.randint(0, 4)
            return sp + v + i + [(14, [r.choice(ds) for _ in range(n)], r.choice(ds))] + self.deadcode(t)
        def h(k):
            if k == 0:
                return g()
            b = [('block', t, self.inlabel(t, 'block', lambda: h(k - 1)))]
            # make the paths distinguishable
            return b + ([const(t, pk_any(r, t)), (BINI[t][0],)] if t != 'r' else self.stmt(0))
        return [('block', t, self.inlabel(t, 'block', lambda: h(r.randint(0, 2))))]

    def index(self, d):
        r = self.r
        k = r.random()
        ls = self.locals_of('i')
        if ls and k < 0.4:
            return [(32, r.choice(ls))]
        if k < 0.7:
            self.pay(2)
            return self.expr('i', d - 1) + [i32(r.choice([1, 3, 7])), (0x71,)]
        return self.expr('i', d - 1)

    def callee(self, pred):
        f = self.f
        ks = [k for k in range(f.idx) if pred(self.sigs[k]) and self.afford(self.cost[k]) and self.room(max(len(self.sigs[k][0]), len(self.sigs[k][1])) + 2)]
        # prefer defined functions
        ds = [k for k in ks if k >= self.nh]
        if ds and self.r.random() < 0.75:
            return self.r.choice(ds)
        return self.r.choice(ks) if ks else None

    def E_call(self, t, d):
        k = self.callee(lambda s: s[1][:1] == t)
        if k is None:
            return None
        b = self.callargs(k, d) + [(16, k)]
        self.pay(self.cost[k])
        self.f.pend += 1
        b += self.sink(self.sigs[k][1][1:])
        self.f.pend -= 1
        return b

    def callargs(self, k, d):
        p = self.sigs[k][0]
        if k in self.recfn and p[0] == 'i':
            out = [i32(self.r.choice([0, 1, 2, 3, 7]))]
            self.f.pend += 1
            out += self.args(p[1:], d - 1)
            self.f.pend -= 1
            return out
        return self.args(p, d - 1)

    def icall(self, pred, d):
        f, r = self.f, self.r
        ks = [s for s, (fn, sg) in enumerate(self.slots) if fn < f.idx and pred(sg) and self.afford(self.cost[fn]) and self.room(max(len(sg[0]), len(sg[1])) + 3)]
        if not ks:
            return None, None
        s = r.choice(ks)
        fn, sg = self.slots[s]
        a = self.callargs(fn, d)
        self.pay(self.cost[fn])
        same = [x for x in ks if self.slots[x][1] == sg and self.slots[x][0] <= fn and (self.slots[x][0] in self.recfn) <= (fn in self.recfn)]
        if len(same) > 1 and r.random() < 0.4:
            f.pend += len(sg[0])
            c = self.expr('i', 1)
            f.pend -= len(sg[0])
            ix = [i32(same[0]), i32(same[1])] + c + [(27,)]
        else:
            ix = [i32(s)]
            if r.random() < 0.3:
                f.pend += len(sg[0]) + 1
                ix = ix + self.stmt(1)
                f.pend -= len(sg[0]) + 1
        return a + ix + [(17, self.m.type(*sg), 0)], sg

    def E_icall(self, t, d):
        b, sg = self.icall(lambda s: s[1][:1] == t, d)
        if b is None:
            return None
        self.f.pend += 1
        b += self.sink(sg[1][1:])
        self.f.pend -= 1
        return b

    # ---------------------------------------------------------------- statements
    def stmt(self, d):
        f = self.f
        if f.cost > self.o['budget'] or not self.room(5):
            return []
        for _ in range(6):
            k = self.pick(self.sw)
            b = getattr(self, 'S_' + k)(d)
            if b is not None:
                self.pay()
                return b
        return []

    def S_nop(self, d):
        return [(1,)]

    def S_set(self, d):
        t = self.ty()
        ls = self.locals_of(t, True)
        return self.expr(t, d) + [(33, self.r.choice(ls))] if ls else None

    def S_swap(self, d):
        """read several variables, then write them in another order"""
        r = self.r
        t = self.ty()
        ls = self.locals_of(t, True)
        if len(ls) < 2:
            return None
        n = min(len(ls), r.randint(2, 5), self.o['cap'] - self.f.pend - 3)
        if n < 2:
            return None
        a = [r.choice(ls) for _ in range(n)]
        b = [r.choice(ls) for _ in range(n)]
        out = []
        for x in a:
            out.append((32, x))
            if r.random() < 0.2 and t != 'r':
                out += [self.constant(t), (r.choice(BINI[t]),)]
        self.pay(2 * n)
        return out + [(33, x) for x in b]

    def probe_of(self, t):
        ks = [k for k in range(self.nh) if self.sigs[k] == (t, '')]
        return self.r.choice(ks) if ks else None

    def epilogue(self):
        """show variables to the host at the end of a function"""
        f, r, out = self.f, self.r, []
        ls = list(range(len(f.ts)))
        r.shuffle(ls)
        for k in ls[:r.randint(1, 5)]:
            p = self.probe_of(f.ts[k])
            if p is not None:
                out += [(32, k), (16, p)]
                self.pay(3)
        return out

    def S_carry(self, d):
        """values of variables stay pending over a construct that writes these variables, then each is shown"""
        f, r = self.f, self.r
        ts = [t for t in self.o['types'] if self.probe_of(t) is not None]
        ls = [k for k, t in enumerate(f.ts) if t in ts and k not in f.fixed]
        n = min(r.randint(1, 4), self.o['cap'] - f.pend - 6)
        if not ls or n < 1 or d <= 0:
            return None
        us = [r.choice(ls) for _ in range(n)]
        out, uts = [], []
        for k in us:
            t = f.ts[k]
            x = r.random()
            if x < 0.75 or t == 'r':
                out.append((32, k))
            elif x < 0.85:
                out += [self.constant(t), (34, k)]
            elif t == 'i' and x < 0.93:
                out += [(32, k), (0x45,)]
            else:
                out += [(32, k), self.constant(t), (r.choice(BINI[t]),)]
            uts.append(t)
        self.pay(2 * n)
        f.pend += n

        def sets():
            b = []
            for k in r.sample(us, r.randint(1, n)):
                b += self.expr(f.ts[k], min(d - 1, 1)) + [(33, k)]
                self.pay(2)
            if r.random() < 0.4:
                b += self.stmt(d - 1)
            return b
        x = r.randrange(6)
        if x <= 1 and f.mult <= 4:
            c = self.newlocal('i', True)
            m = r.choice([2, 2, 3]) if f.mult <= 2 else 2
            f.mult *= m
            f.labels.append(dict(t='', kind='loop', ctr=c, n=m, pend=f.pend))
            b = sets()
            self.pay(6)
            f.labels.pop()
            f.mult //= m
            out += [i32(0), (33, c), ('loop', '', b + [(32, c), i32(1), (0x6a,), (34, c), i32(m), (0x48,), (13, 0)])]
        elif x == 2:
            out += [('block', '', self.inlabel('', 'block', lambda: sets() + (self.cond(1) + [(13, 0)] + sets() if r.random() < 0.6 else [])))]
        elif x == 3:
            c = self.cond(1)
            out += c + [('if', '', self.inlabel('', 'if', sets), self.inlabel('', 'if', sets) if r.random() < 0.6 else None)]
        elif x == 4:
            out += sets()
        else:
            b = self.S_call(1) or []
            out += sets() + b
        f.pend -= n
        for t in reversed(uts):
            out.append((16, self.probe_of(t)))
            self.pay(2)
        return out

    def S_pile(self, d):
        """more pending values of a kind than there are registers, consumed in order again"""
        f, r = self.f, self.r
        top = 29 - f.pend
        if top < 8 or f.mult > 2 or not self.afford(70):
            return None
        n = r.choice([r.randint(6, top), top, r.randint(max(6, top - 6), top)])
        want = r.choice(['f', 'F', 'fF', 'i', 'I', 'iI', 'iIfF', 'iF'])
        want = [t for t in want if t in self.o['types']] or [t for t in self.o['types'] if t != 'r']
        out, uts = [], []
        # operations computed in registers, without a call of a helper (which would move everything to memory)
        own = r.random() < 0.7
        uni = {'i': [0x45, 0xc0, 0xc1], 'I': [0xc2, 0xc3, 0xc4], 'f': [0x8b, 0x8c], 'F': [0x99, 0x9a]} if own else UNI
        bini = {t: [b for b in BINI[t] if b not in (0x77, 0x78, 0x89, 0x8a, 0x96, 0x97, 0x98, 0xa4, 0xa5, 0xa6)] for t in BINI} if own else BINI
        still = own and r.random() < 0.8

        def reduce():
            t = uts.pop()
            x = r.random()
            if uts and uts[-1] == t and x < 0.6:
                out.append((r.choice(BINI[t]),))
                return
            if len(uts) > 1 and t == 'i' and uts[-1] == uts[-2] and x < 0.8:
                uts.pop()
                out.append((27,))
                return
            if uts and uts[-1] == t and t != 'i' and x < 0.65:
                out.append((r.choice(CMPI[t]),))
                uts[-1] = 'i'
                return
            p = self.probe_of(t)
            out.extend([(16, p)] if p is not None and x < 0.9 else self.sink([t]))
        for k in range(n):
            t = r.choice(want)
            out += self.leaf(t)
            x = r.random()
            if x < 0.7:
                out.append((r.choice(uni[t]),))
            elif x < 0.85 and len(uts) < top - 1:
                out += self.leaf(t) + [(r.choice(bini[t]),)]
            elif x < 0.9 and self.locals_of(t, True):
                out.append((34, r.choice(self.locals_of(t, True))))
            uts.append(t)
            if r.random() < 0.05 and len(uts) > 1:
                reduce()
            if not still and r.random() < 0.02 and d > 1:
                f.pend += len(uts)
                out += self.stmt(d - 2)
                f.pend -= len(uts)
        self.pay(4 * n)
        while uts:
            reduce()
        return out

    def S_gset(self, d):
        t = self.ty()
        gs = [k for k, g in enumerate(self.m.globs) if g[0] == t]
        return self.expr(t, d) + [(36, self.r.choice(gs))] if gs else None

    def S_store(self, d):
        t = self.r.choice([x for x in self.o['types'] if x != 'r'])
        op, w = self.r.choice(STORES[t])
        m = self.r.randrange(len(self.m.mems))
        a, off = self.addr(d, w, t in 'fF', m)
        self.f.pend += 1
        v = self.expr(t, d - 1)
        self.f.pend -= 1
        return a + v + [self.memop(op, m, off)]

    def S_drop(self, d):
        return self.expr(self.ty(), d) + [(26,)]

    def stmts(self, d, n=2):
        b = []
        for _ in range(self.r.randint(1, n)):
            b += self.stmt(d)
        return b

    def S_if(self, d):
        if d <= 0:
            return None
        c = self.cond(d - 1)
        a = self.inlabel('', 'if', lambda: self.stmts(d - 1))
        b = None
        if self.r.random() < 0.6:
            b = self.inlabel('', 'if', lambda: self.stmts(d - 1))
        return c + [('if', '', a, b)]

    def S_block(self, d):
        if d <= 0:
            return None
        return [('block', '', self.inlabel('', 'block', lambda: self.stmts(d - 1, 3)))]

    def S_loop(self, d):
        if d <= 0:
            return None
        return self.loop('', d)

    def S_call(self, d):
        if self.r.random() < 0.4:
            b, sg = self.icall(lambda s: True, d)
            if b is None:
                return None
            return b + self.sink(sg[1])
        k = self.callee(lambda s: True)
        if k is None:
            return None
        self.pay(self.cost[k])
        return self.callargs(k, d) + [(16, k)] + self.sink(self.sigs[k][1])

    def S_probe(self, d):
        ks = [k for k in range(self.nh) if len(self.sigs[k][0]) == 1 and not self.sigs[k][1]]
        if not ks or not self.room(3):
            return None
        k = self.r.choice(ks)
        self.pay(2)
        return self.expr(self.sigs[k][0], d) + [(16, k)]

    def S_brif(self, d):
        """conditional branch, also back to a loop (bounded by its counter), with operands pending"""
        f, r = self.f, self.r
        loops = [k for k, lb in enumerate(reversed(f.labels)) if lb['kind'] == 'loop']
        if loops and r.random() < 0.4:
            k = r.choice(loops)
            lb = f.labels[len(f.labels) - 1 - k]
            self.pay(9)
            return [(32, lb['ctr']), i32(1), (0x6a,), (34, lb['ctr']), i32(lb['n']), (0x48,)] + self.cond(d - 1) + [i32(0), (0x47,), (0x71,), (13, k)]
        ds = self.targets('')
        if not ds:
            return None
        sp, ts = self.surplus(1)
        f.pend += len(ts)
        c = self.cond(d - 1)
        f.pend -= len(ts)
        return sp + c + [(13, r.choice(ds))] + self.sink(ts)

    def S_brt(self, d):
        f, r = self.f, self.r
        n = r.randint(1, 3)
        def g():
            ds = self.targets('')
            sp, ts = self.surplus(1)
            f.pend += len(ts)
            i = self.index(d)
            f.pend -= len(ts)
            k = r.randint(0, 5)
            loops = [j for j, lb in enumerate(reversed(f.labels)) if lb['kind'] == 'loop']
            if loops and r.random() < 0.5:
                # entry 0 leaves, the others go back to the loop; the index is 0 once the counter has run out
                j = r.choice(loops)
                lb = f.labels[len(f.labels) - 1 - j]
                w = r.choice([1, 1, 2, 3, 100])
                i = [(32, lb['ctr']), i32(1), (0x6a,), (34, lb['ctr']), i32(lb['n']), (0x48,)] + self.cond(1) + [i32(0), (0x47,), (0x71,)]
                if w > 1:
                    i += [i32(w), (0x6c,)]
                self.pay(10)
                return sp + i + [(14, [r.choice(ds)] + [r.choice(ds + [j, j, j]) for _ in range(k)], r.choice(ds + [j, j]))] + self.deadcode('')
            return sp + i + [(14, [r.choice(ds) for _ in range(k)], r.choice(ds))] + self.deadcode('')
        def h(k):
            if k == 0:
                return g()
            b = [('block', '', self.inlabel('', 'block', lambda: h(k - 1)))]
            return b + self.stmt(1)
        if d <= 0:
            return None
        return [('block', '', self.inlabel('', 'block', lambda: h(n - 1)))]

    def S_dead(self, d):
        f, r = self.f, self.r
        if d <= 0:
            return None
        def g():
            ds = self.targets('')
            b = self.stmt(d - 1)
            sp, ts = self.surplus()
            return b + sp + [(12, r.choice(ds))] + self.deadcode('')
        x = self.inlabel('', 'block', g)
        if r.random() < 0.6:
            c = self.cond(d - 1)
            y = self.inlabel('', 'if', lambda: self.stmt(d - 1)) if r.random() < 0.5 else None
            return c + [('if', '', x, y)]
        return [('block', '', x)]

    def never(self, d):
        """a condition that does not hold, which the code generator cannot know"""
        x = self.r.random()
        self.pay(3)
        if x < 0.2:
            return [i32(0)]
        b = self.cond(d)
        if x < 0.6:
            return b + [i32(0), (0x71,)]
        return b + [(0x45,), (0x45,), i32(1), (0x4b,)]

    def S_unr(self, d):
        """an `unreachable` that is not reached"""
        f, r = self.f, self.r
        if d <= 0:
            return None
        x = self.inlabel('', 'if', lambda: (self.stmt(d - 1) if r.random() < 0.5 else []) + self.surplus()[0] + [(0,)] + (self.deadcode('') if r.random() < 0.4 else []))
        if r.random() < 0.5:
            return self.never(d - 1) + [('if', '', x, self.inlabel('', 'if', lambda: self.stmt(d - 1)) if r.random() < 0.3 else None)]
        y = self.inlabel('', 'if', lambda: self.stmt(d - 1))
        return self.never(d - 1) + [(0x45,), ('if', '', y, x)]

    def E_unr(self, t, d):
        f, r = self.f, self.r
        x = self.inlabel(t, 'if', lambda: self.surplus()[0] + [(0,)] + (self.deadcode(t) if r.random() < 0.5 else []))
        y = self.inlabel(t, 'if', lambda: self.bodyv(t, d - 1))
        if r.random() < 0.5:
            return self.never(d - 1) + [('if', t, x, y)]
        return self.never(d - 1) + [(0x45,), ('if', t, y, x)]

    def S_ret(self, d):
        """return from the middle of the function"""
        f, r = self.f, self.r
        if d <= 0 or not self.room(len(f.res) + 4):
            return None
        c = self.cond(d - 1)
        def g():
            sp, ts = self.surplus()
            f.pend += len(ts)
            b = sp + self.sub(*[(t, 1) for t in f.res])
            f.pend -= len(ts)
            if r.random() < 0.3 and len(f.res) <= 1:
                return b + [(12, len(f.labels))] + self.deadcode('')
            return b + [(15,)] + self.deadcode('')
        return c + [('if', '', self.inlabel('', 'if', g), None)]

    def S_fill(self, d):
        r = self.r
        m = r.randrange(len(self.m.mems))
        a = self.wide(m, [i32(r.randrange(0, 900))]) if r.random() < 0.5 else self.mask(m, d - 1, 0x1ff)
        self.f.pend += 1
        v = self.expr('i', 0) if r.random() < 0.7 else self.expr('i', d - 1)
        self.f.pend += 1
        n = self.wide(m, [i32(r.choice([0, 1, 2, 7, 16, 33, 100]))]) if r.random() < 0.6 else self.mask(m, 0, 31)
        self.f.pend -= 2
        self.pay(4)
        return a + v + n + [(FC + 11, m)]

    def S_copy(self, d):
        r = self.r
        n = len(self.m.mems)
        to, fr = r.randrange(n), r.randrange(n)
        def ad(m):
            return self.wide(m, [i32(r.randrange(0, 900))]) if r.random() < 0.5 else self.mask(m, 0, 0x7f)
        a = ad(to)
        self.f.pend += 1
        b = ad(fr)
        self.f.pend += 1
        c = to if self.m.is64(fr) else fr         # the count is i64 when both indices are
        k = self.wide(c, [i32(r.choice([0, 1, 3, 8, 17, 40, 100]))]) if r.random() < 0.6 else self.mask(c, 0, 63)
        self.f.pend -= 2
        self.pay(5)
        return a + b + k + [(FC + 10, to, fr)]

    def S_tset(self, d):
        """writes to the spare part of the tables"""
        r = self.r
        t = r.randrange(len(self.m.tables))
        lo, n = (self.spare, 6) if t == 0 else (0, 8)
        k = r.random()
        i = lo + r.randrange(n)
        self.f.pend += 1
        try:
            if k < 0.4:
                return [i32(i)] + self.expr('r', 1) + [(38, t)]
            if k < 0.55:
                return [i32(i)] + [i32(lo + r.randrange(n)), (37, t), (38, t)]
            if k < 0.75:
                c = r.randint(0, lo + n - i)
                return [i32(i)] + self.expr('r', 1) + [i32(c), (FC + 17, t)]
            s = r.randrange(len(self.m.tables))
            sz = [x[0] for x in self.m.tables][s]
            j = r.randrange(sz)
            c = r.randint(0, min(lo + n - i, sz - j))
            return [i32(i), i32(j), i32(c), (FC + 14, t, s)]
        finally:
            self.f.pend -= 1


def pk_f(t, v):
    return struct.pack('<f' if t == 'f' else '<d', v)


def pk_any(r, t):
    return pk(t, r.randint(1, 1000)) if t in 'iI' else pk_f(t, float(r.randint(1, 1000)))


def randargs(rnd, p, refs=('@0',)):
    out = []
    for t in p:
        if t in 'iI':
            out.append(hx(ival(rnd, t)) if rnd.random() < 0.7 else hx(pk(t, rnd.randint(0, 5))))
        elif t in 'fF':
            out.append(hx(fval(rnd, t, nan=False)) if rnd.random() < 0.4 else hx(pk_f(t, rnd.choice([0.0, 1.0, -2.5, 3.0, 1e3]))))
        else:
            out.append(rnd.choice(refs))
    return out


def case(rnd, cid, prof, mode=None, cfg=None, **over):
    """one program with a few calls of each function and a full look at the final state"""
    g = ProgGen(rnd, prof, **over)
    m = g.program()
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    k = cs.module(m, rnd if rnd.random() < 0.4 else None)
    hosts = g.hosts
    fs = list(range(g.nh, len(g.sigs)))
    small = [f for f in fs if g.cost[f] < 120]
    for h, (p, r) in enumerate(hosts):
        cb = None
        if small and rnd.random() < g.o['reenter']:
            # the host function calls back into the instance
            f = rnd.choice(small)
            a = randargs(rnd, g.sigs[f][0], ['@0', '@2.0'] + ['@1.1.%d' % x for x in fs])
            if f in g.recfn:
                a[0] = hx(pk('i', rnd.choice([0, 1, 2])))
            cb = (1, f, rnd.choice([1, 2, 3, 5]), a)
        cs.hostfn(h, p, r, [randargs(rnd, r, ('@0', '@2.0', '@9' + hx(pk('I', rnd.getrandbits(40))))) for _ in range(3)] if r else (), cb=cb)
    i = cs.load(k, mode=rnd.choice([0, 1, 2]) if mode is None else mode)
    spent = 0
    refs = ['@0', '@2.0'] + ['@1.%d.%d' % (i, f) for f in fs]
    for f in reversed(fs):
        for _ in range(g.o['calls']):
            if spent > g.o['budget'] * 3:
                break
            a = randargs(rnd, g.sigs[f][0], refs)
            if f in g.recfn:
                a[0] = hx(pk('i', rnd.choice([0, 1, 2, 3, 9])))
            cs.call(i, f, a)
            spent += g.cost[f]
    for n, kind, x in m.exports:
        if kind == 2:
            cs.mem(i, n)
        elif kind == 3:
            cs.glob(i, n)
        elif kind == 1:
            cs.tab(i, n)
    return cs


def cases(rnd, prof, n, prefix, **kw):
    return [case(rnd, '%s%d' % (prefix, k), prof, **kw) for k in range(n)]
