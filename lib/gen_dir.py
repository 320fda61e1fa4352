"""Directed cases: several modules sharing objects, growth histories, large memories, loading shapes, lifetimes, refusals."""
import struct
from wasm import *
from gen_num import ival, fval, pk, val
import gen_prog
from gen_prog import LOADS, STORES, randargs

RT = {'i': 'i', 'I': 'I', 'f': 'f', 'F': 'F', 'r': 'r'}


def H32(v):
    return hx(struct.pack('<I', v & 0xffffffff))


def mk_nan_free(rnd, t):
    return ival(rnd, t) if t in 'iI' else (pk(t, 0) if t == 'r' else fval(rnd, t, nan=False))


def widen(rnd, m, ks):
    """make the memories ks of m indexed by i64, converting operands and results where they are used"""
    def conv(x):
        """an i32 offset as i64, if it can be"""
        mp = {0x6a: 0x7c, 0x6b: 0x7d, 0x6c: 0x7e}
        if all(i[0] == 65 or i[0] in mp for i in x):
            return [i64(struct.unpack('<i', i[1])[0]) if i[0] == 65 else (mp[i[0]],) for i in x]
    ks = set(k for k in ks if all(conv(d[2]) is not None for d in m.datas if d[0] % 2 == 0 and d[1] == k))
    if not ks:
        return
    m.datas = [(d[0], d[1], conv(d[2]), d[3]) if d[0] % 2 == 0 and d[1] in ks else d for d in m.datas]
    n = m.nimp(2)
    j = 0
    for x, im in enumerate(m.imports):
        if im[2] == 2:
            if j in ks:
                m.imports[x] = im[:3] + (tuple(im[3][:2]) + (True,),)
            j += 1
    m.mems = [tuple(a[:2]) + (True,) if n + k in ks else a for k, a in enumerate(m.mems)]
    for x, (ty, locs, body) in enumerate(m.funcs):
        np = len(m.types[ty][0])
        extra = {}

        def tmp(t):
            if t not in extra:
                extra[t] = np + len(locs) + len(extra)
            return extra[t]

        def go(b):
            out = []
            for i in b:
                o = i[0]
                if o in ('block', 'loop'):
                    out.append((o, i[1], go(i[2])))
                elif o == 'if':
                    out.append((o, i[1], go(i[2]), None if i[3] is None else go(i[3])))
                elif o in (63, 64) and len(i) > 2:
                    out.append(i[:2])
                elif o in (63, 64) and i[1] in ks:
                    out += ([(rnd.choice([0xac, 0xad]),)] if o == 64 else []) + [i, (0xa7,)]
                elif o != 14 and isinstance(o, int) and 40 <= o <= 53 and i[1] in ks:
                    out += [(0xad,), i]
                elif isinstance(o, int) and 54 <= o <= 62 and i[1] in ks:
                    k = tmp('I' if o in (55, 60, 61, 62) else 'f' if o == 56 else 'F' if o == 57 else 'i')
                    out += [(33, k), (0xad,), (32, k), i]
                else:
                    out.append(i)
            return out
        body = go(body)
        m.funcs[x] = (ty, locs + ''.join(sorted(extra, key=extra.get)), body)


def cexpr(rnd, t, prev, d):
    """an extended constant expression; prev: globals of this type"""
    A = {'i': [0x6a, 0x6b, 0x6c], 'I': [0x7c, 0x7d, 0x7e]}[t]
    if d > 0 and rnd.random() < 0.06:      # many values pending
        n = rnd.choice([5, 15, 16, 17, 18, 20, 27])
        return [y for _ in range(n) for y in cexpr(rnd, t, prev, 0)] + [(rnd.choice(A),) for _ in range(n - 1)]
    if d == 0 or rnd.random() < 0.2:
        return [(35, rnd.choice(prev))] if prev and rnd.random() < 0.4 else [const(t, ival(rnd, t))]
    return cexpr(rnd, t, prev, d - 1) + cexpr(rnd, t, prev, d - 1) + [(rnd.choice(A),)]


# ------------------------------------------------------------------------------------------------ C09
def memfuncs(m, k, nm='', wd=False):
    """size, grow, load, store and two mixed functions over memory k"""
    fs = {}
    fs['size'] = m.fn('', 'i', '', [(63, k)])
    fs['grow'] = m.fn('i', 'i', '', [(32, 0), (64, k)])
    fs['ld'] = m.fn('i', 'I', '', [(32, 0), (41, k, 0)])
    fs['st'] = m.fn('iI', '', '', [(32, 0), (32, 1), (55, k, 0)])
    # store, grow, read back the old place, write the last bytes of the new memory, in one function
    fs['mix'] = m.fn('iIi', 'IiI', 'i', [
        (32, 0), (32, 1), (55, k, 0), (32, 2), (64, k), (33, 3),
        (32, 0), (41, k, 0), (63, k), (63, k), i32(65536), (0x6c,), i32(8), (0x6b,), (41, k, 0)])
    # address pending while the memory moves
    fs['pend'] = m.fn('iIi', 'Ii', '', [
        (32, 0), (32, 1), (32, 2), (64, k), (0xac,), (0x7c,), (55, k, 4), (32, 0), (41, k, 4), (63, k)])
    # grow by one n times in a loop, marking every new page
    fs['loop'] = m.fn('i', 'i', 'i', [
        ('block', '', [('loop', '', [
            (32, 0), (0x45,), (13, 1),
            i32(1), (64, k), (34, 1), i32(-1), (0x46,), (13, 1),
            (32, 1), i32(65536), (0x6c,), (32, 0), (54, k, 12),
            (32, 0), i32(1), (0x6b,), (33, 0), (12, 0)])]), (63, k)])
    # the operand and the results as a 64-bit memory has them
    fs['wide'] = m.fn('I', 'II', '', [(32, 0), (64, k, 64), (63, k, 64)] if wd else [(32, 0), (0xa7,), (64, k), (0xac,), (63, k), (0xad,)])
    for n, f in fs.items():
        m.exports.append((nm + n, 0, f))
    return fs


def reload_case(rnd, cid, cfg=None):
    """functions that access memory, call something that grows it in some way, and access old and new places again"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    mode = rnd.choice([0, 1, 2])
    nm = rnd.randint(1, 3)
    a = Module()
    o = Module()                       # another module, which owns or shares the memories
    shared = rnd.random() < 0.6
    mems = [(rnd.choice([1, 1, 2, 3]), rnd.choice([None, 60, 200])) for _ in range(nm)]
    hb = rnd.random() < 0.5            # the host function calls back
    a.imports.append(('host', 'h0', 0, a.type('i', 'i')))
    if shared:
        o.mems = mems
        for k in range(nm):
            o.exports.append(('m%d' % k, 2, k))
            a.imports.append(('O', 'm%d' % k, 2, (0, None)))
        ofs = []
        for k in range(nm):
            ofs.append(o.fn('i', 'i', '', [(32, 0), (64, k)]))
            o.exports.append(('g%d' % k, 0, ofs[-1]))
            a.imports.append(('O', 'g%d' % k, 0, a.type('i', 'i')))
    else:
        a.mems = mems
    ni = a.nimp(0)
    # growers: (function index, params, results, memory grown or None), first parameter = amount
    grow = []
    deep = []
    for _ in range(rnd.randint(3, 6)):
        k = rnd.randrange(nm)
        p = rnd.choice(['i', 'i', '', 'iI', 'iiF', 'if', 'iiiiii', 'iFfII'])
        r = rnd.choice(['', '', '', 'i', 'I', 'f', 'F', 'iI', 'Ff', 'iii'])
        amt = [(32, 0)] if p else [i32(rnd.choice([0, 1, 2]))]
        loc = 'iI'
        way = rnd.choice(['own', 'own', 'block', 'if', 'loop', 'deep', 'tail', 'imp', 'host', 'icall', 'touch'])
        g = [(64, k), (26,)]
        if way == 'own':
            b = amt + g
        elif way == 'touch':
            b = [i32(40), i32(7), (54, k, 0)] + amt + g + [i32(44), i32(9), (54, k, 0)]
        elif way == 'block':
            b = [('block', '', [i32(1), (0x45,), (13, 0)] + amt + g)]
        elif way == 'if':
            b = amt + [('if', '', amt + g, None)]
        elif way == 'loop':
            b = [('loop', '', amt + g + [(32, len(p)), i32(1), (0x6a,), (34, len(p)), i32(2), (0x48,), (13, 0)])]
        elif way in ('deep', 'tail', 'icall') and grow:
            f2, p2, r2, k2, _ = rnd.choice(grow)
            k = k2
            ar = [{'i': amt[0]}.get(t) or const(t, mk_nan_free(rnd, t)) for t in p2]
            if way == 'tail' and r2 == r:
                b = ar + [(18, f2)]
            elif way == 'icall':
                b = ar + [i32(f2 - ni), (17, a.type(p2, r2), 0)] + [(26,)] * len(r2)
            else:
                b = ar + [(16, f2)] + [(26,)] * len(r2)
        elif way == 'imp' and shared:
            b = amt + [(16, 1 + k), (26,)]
        elif way == 'host' and hb:
            b = amt + [(16, 0), (26,)]
            k = 0
        else:
            b = amt + g
        if not (b and b[-1][0] == 18):
            b = b + [const(t, mk_nan_free(rnd, t)) for t in r]
        f = a.fn(p, r, loc, b)
        grow.append((f, p, r, k, way))
    if hb:
        f = a.fn('i', '', '', [(32, 0), (64, 0), (26,)] if rnd.random() < 0.5 else [i32(24), i32(5), (54, 0, 0), (32, 0), (64, 0), (26,)])
        grow.append((f, 'i', '', 0, 'cb'))
        a.exports.append(('cb', 0, f))
        cbf = f
    nf = ni
    # the table holds the growers by their order
    tab = len(grow)
    calls = []
    for _ in range(rnd.randint(2, 5)):
        loc = 'iII'
        body = []
        np = 2
        acc = []
        for _ in range(rnd.randint(1, 3)):
            k = rnd.randrange(nm) if rnd.random() < 0.4 else 0
            f, p, r, gk, way = rnd.choice(grow)
            if rnd.random() < 0.7:
                k = gk
            # an access before
            body += rnd.choice([[(32, 1), (32, 0), (54, k, 0)], [(32, 1), (40, k, 0), (26,)], [(32, 1), (41, k, 4), (33, 3)], []])
            pend = rnd.random() < 0.3
            if pend:
                body += [(32, 1), (40, k, 0)]
            ar = [(32, 0) if t == 'i' and rnd.random() < 0.8 else i32(1) if t == 'i' else const(t, mk_nan_free(rnd, t)) for t in p]
            how = rnd.choice(['call', 'call', 'icall', 'block', 'if', 'loop'])
            c = [(16, f)] if how != 'icall' else [i32(f - ni), (17, a.type(p, r), 0)]
            c = ar + c + [rnd.choice([(26,), (26,), {'i': (33, 2), 'I': (33, 3)}.get(t, (26,))]) for t in reversed(r)]
            if how == 'block':
                c = [('block', '', c)]
            elif how == 'if':
                c = [(32, 0), ('if', '', c, rnd.choice([None, [(32, 1), (40, k, 0), (33, 2)]]))]
            elif how == 'loop':
                c = [i32(0), (33, 2)] + [('loop', '', [x for x in ar] + [(16, f)] + [(26,)] * len(r) + [
                    (32, 1), (32, 2), (58, k, 9), (32, 2), i32(1), (0x6a,), (34, 2), i32(2), (0x48,), (13, 0)])]
            body += c
            if pend:
                body += [(33, 2), (32, 1), (32, 2), (54, k, 4)]
            # accesses after: the old place and the end of the memory
            body += [(32, 1), (32, 1), (41, k, 0), i64(rnd.getrandbits(20)), (0x7c,), (55, k, 0)]
            if rnd.random() < 0.6:
                body += [(63, k), i32(65536), (0x6c,), i32(rnd.choice([8, 9, 16, 65536])), (0x6b,), (32, 1), (54, k, 0)]
            acc.append(k)
        k = rnd.choice(acc)
        body += [(32, 1), (41, k, 0), (63, k)]
        f = a.fn('ii', 'Ii', loc, body)
        a.exports.append(('c%d' % f, 0, f))
        calls.append((f, k))
    a.tables = [(tab, tab)]
    a.elems.append((0, 0, [i32(0)], [[(210, g[0])] for g in grow]))
    for k in range(nm):
        a.exports.append(('mem%d' % k, 2, k))
    wd = [k for k in range(nm) if rnd.random() < 0.5] if rnd.random() < 0.3 else []
    widen(rnd, a, wd)
    if shared:
        widen(rnd, o, wd)
        mo = cs.module(o)
        io = cs.load(mo, 'O', mode)
    ma = cs.module(a)
    ia = 2 if shared else 1
    if hb:
        cs.hostfn(0, 'i', 'i', [[H32(1)]], cb=(ia, cbf, rnd.choice([1, 2, 9]), [H32(rnd.choice([0, 1, 2]))]))
    else:
        cs.hostfn(0, 'i', 'i', [[H32(1)]])
    assert cs.load(ma, 'A', mode) == ia
    for f, k in calls:
        for _ in range(2):
            cs.call(ia, f, [H32(rnd.choice([0, 1, 1, 2])), H32(rnd.choice([0, 100, 3, 65520, 4000]))])
    if shared and rnd.random() < 0.7:
        cs.call(io, ofs[0], [H32(1)])
        f, k = rnd.choice(calls)
        cs.call(ia, f, [H32(1), H32(200)])
    for k in range(nm):
        cs.mem(ia, 'mem%d' % k)
    return cs


def grow_case(rnd, cid, cfg=None):
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    mode = rnd.choice([0, 1, 2])
    a = Module()
    kinds = []
    nm = rnd.randint(1, 3)
    hostmem = rnd.random() < 0.2
    if hostmem:
        ini = rnd.randint(0, 3)
        mx = ini + rnd.randint(0, 3)
        cs.hostmem(ini, mx)
        a.imports.append(('host', 'm0', 2, (ini, mx)))
        kinds.append([ini, mx])
    for _ in range(nm):
        ini = rnd.choice([0, 0, 1, 1, 2, 3])
        mx = rnd.choice([None, ini, ini + 1, ini + 3, 8, 40, 65536 if rnd.random() < 0.3 else 5])
        if mx is not None and mx < ini:
            mx = ini
        a.mems.append((ini, mx))
        kinds.append([ini, 32768 if mx is None else mx])
    if kinds[0][0] == 0 and rnd.random() < 0.5:
        pass
    wd = [k for k in range(len(kinds)) if rnd.random() < 0.5] if rnd.random() < 0.4 else []
    fa = [memfuncs(a, k, 'a%d' % k, k in wd) for k in range(len(kinds))]
    for k in range(len(kinds)):
        a.exports.append(('mem%d' % k, 2, k))
    other = None
    b = Module()
    use = rnd.sample(range(len(kinds)), rnd.randint(1, len(kinds)))
    h = b.type('', '')
    for k in use:
        b.imports.append(('A', 'mem%d' % k, 2, (0, None)))
    calls = {}
    sg = {'size': ('', 'i'), 'grow': ('i', 'i'), 'st': ('iI', ''), 'ld': ('i', 'I')}
    k0 = use[0]
    b.imports.append(('A', 'a%dgrow' % k0, 0, b.type('i', 'i')))
    fb = [memfuncs(b, j, 'b%d' % j, use[j] in wd) for j in range(len(use))]
    # the other module grows the shared memory while this one uses it
    x = b.fn('iIi', 'Ii', '', [(32, 0), (32, 1), (55, 0, 0), (32, 2), (16, 0), (26,), (32, 0), (41, 0, 0), (63, 0)])
    b.exports.append(('x', 0, x))
    widen(rnd, a, wd)
    widen(rnd, b, [j for j in range(len(use)) if use[j] in wd])
    ma = cs.module(a)
    mb = cs.module(b)
    ia = cs.load(ma, 'A', mode)
    ib = cs.load(mb, 'B', mode)
    size = [k[0] for k in kinds]
    for _ in range(rnd.randint(10, 22)):
        who = rnd.random() < 0.5
        if who:
            j = rnd.randrange(len(kinds))
            k, inst, fs = j, ia, fa[j]
        else:
            j = rnd.randrange(len(use))
            k, inst, fs = use[j], ib, fb[j]
        s, mx = size[k], kinds[k][1]

        def amount():
            c = [0, 1, 1, 2, 3, mx - s, mx - s + 1, mx, 65536, 65535, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffffff - s + 1, 0x10000 - s]
            while True:
                d = rnd.choice(c) & 0xffffffff
                if s + d > mx or s + d <= 24:
                    return d

        def after(d):
            if s + d <= mx:
                size[k] = s + d
        op = rnd.choice(['size', 'grow', 'wide', 'ld', 'st', 'st', 'mix', 'pend', 'loop', 'x'])
        if op == 'x' and (who or j != 0):
            op = 'grow'
        if op == 'size':
            cs.call(inst, fs['size'], [])
        elif op == 'grow':
            d = amount()
            cs.call(inst, fs['grow'], [H32(d)])
            after(d)
        elif op == 'wide':
            d = amount()
            if k in wd and rnd.random() < 0.4:
                d |= rnd.choice([1, 2, 0x80000000, 0xffffffff]) << 32
            cs.call(inst, fs['wide'], [hx(struct.pack('<Q', d))])
            after(d)
        elif op == 'loop':
            n = rnd.randint(0, 3)
            cs.call(inst, fs['loop'], [H32(n)])
            size[k] = min(mx, s + n)
        elif s == 0:
            cs.call(inst, fs['size'], [])
        else:
            ad = rnd.choice([0, 1, 7, s * 65536 - 8, (s - 1) * 65536, (s - 1) * 65536 + 3, rnd.randrange(s * 65536 - 16), max(0, (s - 1) * 65536 - 4)])
            v = pk('I', rnd.getrandbits(64))
            if op == 'ld':
                cs.call(inst, fs['ld'], [H32(ad)])
            elif op == 'st':
                cs.call(inst, fs['st'], [H32(ad), hx(v)])
            else:
                ad = min(ad, s * 65536 - 16)
                d = amount()
                cs.call(inst, x if op == 'x' else fs[op], [H32(ad), hx(v), H32(d)])
                if op == 'x':
                    # grows the exported memory k0 = use[0], which is this one
                    after(d)
                else:
                    after(d)
    for k in range(len(kinds)):
        cs.mem(ia, 'mem%d' % k)
    return cs


# ------------------------------------------------------------------------------------------------ C08
def offsets_case(rnd, cid, cfg=None):
    """big memories: addresses and constant offsets around powers of two, index operands in all places"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    m = Module()
    big = rnd.random() < 0.6
    x64 = rnd.random() < 0.35
    pages = rnd.choice([65536, 65536, 40000, 32768, 20000] + [65537, 65600, 131072, 200000] * x64) if big else rnd.choice([1, 2, 3])
    m.mems = [(pages, pages, x64)]
    if rnd.random() < 0.5:
        m.mems.append((2, 2, rnd.random() < 0.2))
    if rnd.random() < 0.4:
        m.mems.reverse()
    if rnd.random() < 0.3:      # without maximum
        m.mems[0] = (min(m.mems[0][0], 20000), None, m.mems[0][2])
    plan = []
    m.globs.append(('i', True, [i32(0)]))
    for f in range(rnd.randint(4, 8)):
        k = rnd.randrange(len(m.mems))
        sz = m.mems[k][0] * 65536
        t = rnd.choice('iIfF')
        lop, lw = rnd.choice(LOADS[t])
        sop, sw = rnd.choice(STORES[t])
        w = max(lw, sw)
        wd = m.is64(k)
        ext = [(rnd.choice([0xac, 0xad]) if sz <= 2**31 else 0xad,)] if wd else []
        offs = [0, 1, 2, 4, 7, 127, 128, 255, 256, 32767, 65528, 65535, 0x7ffffff0, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffff000, sz - w]
        off = rnd.choice([o for o in offs if 0 <= o <= sz - w and o < 2**32])
        place = rnd.choice(['param', 'local', 'const', 'mem', 'glob', 'expr', 'wrap', 'call', 'tee'])
        if wd and place in ('glob', 'wrap'):
            place = 'expr'
        # the base address reaches the instruction through different places
        cbase = None
        it = 'I' if wd and place in ('param', 'local', 'const', 'mem', 'expr', 'tee') else 'i'
        if it == 'I':
            ext = []
        pre, p = [], it + t
        loc = it + 'I'
        ic = i64 if it == 'I' else i32

        def addr():
            if place == 'param':
                return [(32, 0)]
            if place == 'local':
                return [(32, 2)]
            if place == 'const':
                return [ic(cbase)]
            if place == 'mem':
                return [i64(64), (41, k, 0)] if wd else [i32(64), (40, k, 0)]
            if place == 'glob':
                return [(35, 0)]
            if place == 'expr':
                return [(32, 0), ic(1), (0x7c,) if it == 'I' else (0x6a,), ic(1), (0x7d,) if it == 'I' else (0x6b,)]
            if place == 'wrap':
                return [(32, 3), (0xa7,)]
            if place == 'call':
                return [(32, 0), (16, 0)] + ext
            return [(32, 0), (34, 2)]
        bases = []
        for _ in range(4):
            b = rnd.choice([0, 1, 3, 100, sz - w - off, sz - w - off - 1, rnd.randrange(sz - w - off + 1), 0x7fffffff, 0x80000000, 0x80000001, 0xffff0000])
            if b < 0 or b + off + w > sz or b > 0xffffffff and it == 'i':
                b = rnd.randrange(min(sz - w - off + 1, 2**32 if it == 'i' else 2**40))
            if place == 'mem':
                while b + off < 80 and b + off + w > 56 or b + off + 8 > sz:
                    b = rnd.randrange(min(sz - w - off - 200, 2**32)) if sz - off > 300 else 90
                    if b + off + w > sz:
                        break
            bases.append(b)
        if place == 'const':
            cbase = bases[0]
        if place == 'mem' and any(b + off + w > sz or b + off < 80 and b + off + w > 56 for b in bases):
            place = 'param'
        if place == 'local':
            pre = [(32, 0), (33, 2)]
        elif place == 'mem':
            pre = [i64(64), (32, 0), (55, k, 0)] if wd else [i32(64), (32, 0), (54, k, 0)]
        elif place == 'glob':
            pre = [(32, 0), (36, 0)]
        elif place == 'wrap':
            pre = [(32, 0), (0xad,), i64(0x123456789 << 32), (0x84,), (33, 3)]
        big_idx = rnd.random() < 0.3
        body = pre + addr() + [(32, 1), (sop, k, off, big_idx)] + addr() + [(lop, k, off, big_idx)]
        if rnd.random() < 0.3:
            body += addr() + [(45, k, off)]
            res = t + 'i'
        else:
            res = t
        plan.append((p, res, loc, body, [cbase] if place == 'const' else bases, t, it))
    m.funcs.insert(0, (m.type('i', 'i'), '', [(32, 0)]))
    fidx = []
    for p, res, loc, body, bases, t, it in plan:
        f = m.fn(p, res, loc, body)
        m.exports.append(('f%d' % f, 0, f))
        fidx.append(f)
    if all(x[0] < 100 for x in m.mems):
        for k in range(len(m.mems)):
            m.exports.append(('m%d' % k, 2, k))
    if rnd.random() < 0.5:
        for k in range(len(m.mems)):
            sz = m.mems[k][0] * 65536
            o = rnd.choice([0, 5, sz - 16, rnd.randrange(sz - 16)])
            if o < 2**32 or m.is64(k):
                m.datas.append((2 if k else rnd.choice([0, 2]), k, [i64(o) if m.is64(k) else i32(o)], bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 16)))))
    k = cs.module(m, rnd if rnd.random() < 0.3 else None)
    i = cs.load(k, mode=rnd.choice([0, 1]))
    for f, (p, res, loc, body, bases, t, it) in zip(fidx, plan):
        for b in bases:
            cs.call(i, f, [hx(struct.pack('<q' if it == 'I' else '<I', b)), hx(mk_nan_free(rnd, t))])
    for n, kind, x in m.exports:
        if kind == 2:
            cs.mem(i, n)
    return cs


# ------------------------------------------------------------------------------------------------ C10
def bulk_case(rnd, cid, cfg=None):
    """memory.copy/fill, table.copy/fill with every overlap; operands as constants or parameters"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    m = Module()
    nm = rnd.randint(1, 3)
    nt = rnd.randint(1, 3)
    m.mems = [(1, rnd.choice([1, 2]), rnd.random() < 0.3) for _ in range(nm)]
    m.tables = [(rnd.choice([8, 9, 12]), 12) for _ in range(nt)]
    nf = 6
    for j in range(nf):
        m.fn('', 'i', '', [i32(1000 + j)])
    for t in range(nt):
        n = rnd.randint(3, 8)
        m.elems.append((2 if t else rnd.choice([0, 2]), t, [i32(rnd.randint(0, 8 - n))], [[(210, rnd.randrange(nf))] for _ in range(n)]))
    for k in range(nm):
        m.datas.append((2 if k else 0, k, [(i64 if m.is64(k) else i32)(rnd.randint(0, 40))], bytes(rnd.randrange(256) for _ in range(rnd.randint(20, 90)))))
    plan = []

    def operands(vals, ty='iii'):
        """each operand constant or parameter"""
        code, par, args = [], '', []
        for v, t in zip(vals, ty):
            ic = i64 if t == 'I' else i32
            if rnd.random() < 0.4:
                code.append([ic(v)])
            else:
                code.append([(32, len(par))] if rnd.random() < 0.7 else [(32, len(par)), ic(0), (0x7c if t == 'I' else 0x6a,)])
                par += t
                args.append((v, t))
        return code, par, args
    for _ in range(rnd.randint(8, 16)):
        op = rnd.choice(['mcopy', 'mcopy', 'mfill', 'tcopy', 'tcopy', 'tfill', 'tget'])
        if op in ('mcopy', 'mfill'):
            n = rnd.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65])
            d = rnd.choice([0, 1, 8, 10, 20, 33, 65536 - n, rnd.randint(0, 100)])
            s = rnd.choice([d, d + 1, max(0, d - 1), d + n, max(0, d - n), max(0, d - n // 2), d + n // 2, rnd.randint(0, 100), 65536 - n])
            s = min(s, 65536 - n)
            kd, ks = rnd.randrange(nm), rnd.randrange(nm)
            if op == 'mcopy':
                td, ts = ('iI'[m.is64(x)] for x in (kd, ks))
                c, par, args = operands([d, s, n], td + ts + ('I' if td + ts == 'II' else 'i'))
                plan.append((par, '', c[0] + c[1] + c[2] + [(FC + 10, kd, ks)], args))
            else:
                v = rnd.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x80000000, 0xffffffff, rnd.getrandbits(32)])
                td = 'iI'[m.is64(kd)]
                c, par, args = operands([d, v, n], td + 'i' + td)
                plan.append((par, '', c[0] + c[1] + c[2] + [(FC + 11, kd)], args))
        elif op == 'tcopy':
            kd, ks = rnd.randrange(nt), rnd.randrange(nt)
            if rnd.random() < 0.5:
                ks = kd
            sd, ss = m.tables[kd][0], m.tables[ks][0]
            n = rnd.randint(0, min(sd, ss))
            d = rnd.randint(0, sd - n)
            s = rnd.choice([rnd.randint(0, ss - n), min(d, ss - n), min(d + 1, ss - n), max(0, min(d - 1, ss - n))])
            c, par, args = operands([d, s, n])
            plan.append((par, '', c[0] + c[1] + c[2] + [(FC + 14, kd, ks)], args))
        elif op == 'tfill':
            k = rnd.randrange(nt)
            n = rnd.randint(0, m.tables[k][0])
            d = rnd.randint(0, m.tables[k][0] - n)
            c, par, args = operands([d, n])
            ref = rnd.choice([[(208, 'r')], [(210, rnd.randrange(nf))], [i32(rnd.randrange(8)), (37, rnd.randrange(nt))]])
            plan.append((par, '', c[0] + ref + c[1] + [(FC + 17, k)], args))
        else:
            k = rnd.randrange(nt)
            x = rnd.randrange(m.tables[k][0])
            plan.append(('i', 'ri', [(32, 0), (37, k), (FC + 16, k)], [x]))
    # everything below also with pending operands around
    ids = []
    for par, res, body, args in plan:
        if rnd.random() < 0.4:
            t = rnd.choice('iIfF')
            c = const(t, mk_nan_free(rnd, t))
            if res:
                ids.append((m.fn(par, t + res, '', [c] + body), args))
            else:
                ids.append((m.fn(par, t, '', [c] + gen_num_ident(t) + body), args))
        else:
            ids.append((m.fn(par, res, '', body), args))
    for f, _ in ids:
        m.exports.append(('f%d' % f, 0, f))
    for j in range(nf):
        m.exports.append(('f%d' % j, 0, j))
    for k in range(nm):
        m.exports.append(('m%d' % k, 2, k))
    for k in range(nt):
        m.exports.append(('t%d' % k, 1, k))
    k = cs.module(m)
    i = cs.load(k, mode=rnd.choice([0, 1]))
    for f, args in ids:
        cs.call(i, f, [H32(a) if not isinstance(a, tuple) else hx(struct.pack('<q' if a[1] == 'I' else '<I', a[0])) for a in args])
        if rnd.random() < 0.3:
            n, kind, x = rnd.choice([e for e in m.exports if e[1] in (1, 2)])
            (cs.mem if kind == 2 else cs.tab)(i, n)
    for n, kind, x in m.exports:
        if kind == 2:
            cs.mem(i, n)
        elif kind == 1:
            cs.tab(i, n)
    return cs


def gen_num_ident(t):
    import gen_num
    return gen_num.ident(t, 0)


# ------------------------------------------------------------------------------------------------ C11
def tables_case(rnd, cid, cfg=None):
    """tables and functions shared between modules and the host; histories of updates and indirect calls"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    mode = rnd.choice([0, 1, 2])
    sigs = [('i', 'i'), ('', 'I'), ('IF', 'F'), ('r', 'r')]
    wide = rnd.choice([1, 2]) if rnd.random() < 0.12 else 0
    nsig = rnd.randint(2, 4)
    for h in range(nsig):
        p, r = sigs[h]
        cs.hostfn(h, p, r, [randargs(rnd, r, ('@0', '@2.1')) for _ in range(3)])
    hosttab = rnd.random() < 0.5
    if hosttab:
        cs.hosttab(['@0' if rnd.random() < 0.4 else '@2.%d' % rnd.randrange(nsig) for _ in range(6)])

    def build(tag, imports, first):
        m = Module()
        for h in range(nsig):
            m.imports.append(('host', 'h%d' % h, 0, m.type(*sigs[h])))
        m.imports += [(a, b, k, (m.type(*d) if k == 0 else d)) for a, b, k, d in imports]
        owns = rnd.randint(0 if any(x[2] == 1 for x in imports) else 1, 2)
        if wide == tag:
            owns = rnd.choice([6, 12, 13, 36, 41, 66, 130])
        sizes = [x[3][0] for x in m.imports if x[2] == 1]
        for _ in range(owns):
            n = rnd.randint(5, 9)
            m.tables.append((n, rnd.choice([None, n, n + 3])))
            sizes.append(n)
        fsig = []
        for x in m.imports:
            if x[2] == 0:
                fsig.append(m.types[x[3]])
        nimp = len(fsig)
        # leaf functions, all distinguishable
        for q in range(nsig):
            for j in range(2):
                p, r = sigs[q]
                body = {0: [(32, 0), i32(tag * 1000 + j), (0x6a,)], 1: [i64(tag * 77 + j)],
                        2: [(32, 0), (0xb9,), (32, 1), (0xa0,), f64(tag + j), (0xa0,)], 3: [(32, 0)] if j else [(208, 'r')]}[q]
                m.fn(p, r, '', body)
                fsig.append((p, r))
        total = len(fsig)
        m.globs.append(('r', True, [rnd.choice([(208, 'r'), (210, rnd.randrange(total))])]))
        used = [0] * len(sizes)
        for _ in range(rnd.randint(1, 4)):
            t = rnd.randrange(len(sizes))
            n = rnd.randint(0, min(4, sizes[t]))
            off = rnd.randint(0, sizes[t] - n)
            form = rnd.choice([0, 4] if t == 0 else [2, 6]) if rnd.random() < 0.6 else rnd.choice([2, 6])
            its = []
            for _ in range(n):
                if form in (4, 6) and rnd.random() < 0.4:
                    its.append([rnd.choice([(208, 'r'), (35, 0)])])
                else:
                    its.append([(210, rnd.randrange(total))])
            m.elems.append((form, t, [i32(off)], its))
        fs = []

        def add(name, p, r, body, kind):
            f = m.fn(p, r, '', body)
            m.exports.append((name, 0, f))
            fs.append((f, p, r, kind))
        ts = list(range(len(sizes)))
        if len(ts) > 4:            # indices that look like other parts of the code
            ts = sorted(set(rnd.sample(range(len(ts)), 2) + [len(ts) - 1] + rnd.sample([x for x in (2, 3, 4, 5, 11, 16, 32, 33, 34, 35, 63, 64, 65, 127, 128) if x < len(ts)], 3)))
        for t in ts:
            add('fill%d' % t, 'iri', '', [(32, 0), (32, 1), (32, 2), (FC + 17, t)], ('fill', t))
            us = [rnd.choice(ts) for _ in range(3)]
            add('fills%d' % t, 'r', 'r', sum([[i32(0), (32, 0), i32(1), (FC + 17, u)] for u in us], []) + [i32(0), (37, us[-1])], ('fills', us))
            add('get%d' % t, 'i', 'ri', [(32, 0), (37, t), (32, 0), (37, t), (209,)], ('get', t))
            add('set%d' % t, 'ir', 'r', [(32, 0), (32, 1), (38, t), (32, 0), (37, t)], ('set', t))
            add('setf%d' % t, 'i', 'r', [(32, 0), (210, rnd.randrange(total)), (38, t), (32, 0), (37, t)], ('seti', t))
            add('swap%d' % t, 'ii', '', [(32, 0), (32, 1), (37, t), (32, 1), (32, 0), (37, t), (38, t), (38, t)], ('swap', t))
            add('size%d' % t, '', 'i', [(FC + 16, t)], ('size', t))
            add('copy%d' % t, 'iii', '', [(32, 0), (32, 1), (32, 2), (FC + 14, t, rnd.choice([t, t, 0, rnd.choice(ts)]))], ('copy', t, m))
            add('growf%d' % t, 'i', 'i', [(208, 'r'), (32, 0), (FC + 15, t)], ('grow', t))
            for q in range(nsig):
                p, r = sigs[q]
                add('call%d_%d' % (t, q), p + 'i', r, [(32, j) for j in range(len(p))] + [(32, len(p)), (17, m.type(p, r), t)], ('call', t, q))
                add('tail%d_%d' % (t, q), p + 'i', r, [(32, j) for j in range(len(p))] + [(32, len(p)), (19, m.type(p, r), t)], ('call', t, q))
        add('gset', 'r', 'i', [(32, 0), (36, 0), (35, 0), (209,)], ('gset',))
        add('gget', '', 'r', [(35, 0)], ('gget',))
        for f in range(nimp, nimp + 2 * nsig):
            m.exports.append(('l%d' % f, 0, f))
        for t in range(len(sizes)):
            m.exports.append(('tab%d' % t, 1, t))
        m.exports.append(('g', 3, 0))
        return m, sizes, fs, fsig, nimp

    imp = [('host', 't0', 1, (6, None))] if hosttab else []
    a, sa, fa, ga, na = build(1, imp, True)
    ma = cs.module(a)
    ia = cs.load(ma, 'A', mode)
    impb = [('A', 'tab%d' % t, 1, (s, None)) for t, s in enumerate(sa)]
    # B imports functions of A too
    exps = [(n, x) for n, k, x in a.exports if k == 0 and n[0] == 'l']
    for n, x in rnd.sample(exps, rnd.randint(0, 3)):
        impb.append(('A', n, 0, ga[x]))
    b, sb, fb, gb, nb = build(2, impb, False)
    mb = cs.module(b)
    ib = cs.load(mb, 'B', mode)
    insts = [(ia, a, sa, fa, ga, na), (ib, b, sb, fb, gb, nb)]
    # known contents, to call entries with the right signature
    cont = {}          # table key -> list of (kind, sig) per entry; resolved by a small interpreter of the history
    key = {}
    hostkey = ('h', 0)

    def tkey(inst, t):
        if inst == ia:
            if hosttab:
                return ('h', 0) if t == 0 else ('a', t)
            return ('a', t)
        if t < len(sa):
            return tkey(ia, t)
        return ('b', t)
    # simulate contents symbolically
    hostsig = {h: sigs[h] for h in range(nsig)}

    def fref(inst, f):
        for x in insts:
            if x[0] == inst:
                return ('f', inst, f, x[4][f])
    for n, s in [(tkey(ia, t), s) for t, s in enumerate(sa)] + [(tkey(ib, t), s) for t, s in enumerate(sb)]:
        cont.setdefault(n, [None] * s)
    if hosttab:
        ln = [l for l in cs.lines if l.startswith('HTAB')][0].split()[2:]
        cont[('h', 0)] = [None if x == '@0' else ('h', int(x[3:]), sigs[int(x[3:])]) for x in ln]
    gval = {}
    for inst, m, s, fs, gs, ni in insts:
        def ev(x):
            if x[0] == 208:
                return None
            if x[0] == 210:
                return (inst, x[1], gs[x[1]])
            return gval[inst]
        gval[inst] = ev(m.globs[0][2][0])
        for form, t, off, its in m.elems:
            o = struct.unpack('<i', off[0][1])[0]
            for j, x in enumerate(its):
                cont[tkey(inst, t)][o + j] = ev(x[0])

    def sigof(e):
        return None if e is None else e[2]
    refs = ['@0'] + ['@2.%d' % h for h in range(nsig)]
    refv = {'@0': None}
    for h in range(nsig):
        refv['@2.%d' % h] = ('h', h, sigs[h])
    for inst, m, s, fs, gs, ni in insts:
        for n, k, x in m.exports:
            if k == 0 and n[0] == 'l':
                r = '@1.%d.%d' % (inst, x)
                refs.append(r)
                refv[r] = (inst, x, gs[x])
    for _ in range(rnd.randint(20, 40)):
        inst, m, s, fs, gs, ni = rnd.choice(insts)
        f, p, r, kd = rnd.choice(fs)
        if kd[0] in ('size', 'gget'):
            cs.call(inst, f, [])
        elif kd[0] == 'grow':
            cs.call(inst, f, [H32(rnd.choice([0, 1, 5]))])
        elif kd[0] == 'get':
            cs.call(inst, f, [H32(rnd.randrange(s[kd[1]]))])
        elif kd[0] == 'fill':
            n = rnd.randint(0, s[kd[1]])
            x = rnd.randint(0, s[kd[1]] - n)
            ref = rnd.choice(refs)
            cs.call(inst, f, [H32(x), ref, H32(n)])
            cont[tkey(inst, kd[1])][x:x + n] = [refv[ref]] * n
        elif kd[0] == 'fills':
            ref = rnd.choice(refs)
            cs.call(inst, f, [ref])
            for u in kd[1]:
                cont[tkey(inst, u)][0] = refv[ref]
        elif kd[0] in ('set', 'gset'):
            ref = rnd.choice(refs)
            if kd[0] == 'gset':
                cs.call(inst, f, [ref])
                gval[inst] = refv[ref]
            else:
                x = rnd.randrange(s[kd[1]])
                cs.call(inst, f, [H32(x), ref])
                cont[tkey(inst, kd[1])][x] = refv[ref]
        elif kd[0] == 'seti':
            x = rnd.randrange(s[kd[1]])
            cs.call(inst, f, [H32(x)])
            body = m.funcs[f - m.nimp(0)][2]
            g = body[1][1]
            cont[tkey(inst, kd[1])][x] = (inst, g, gs[g])
        elif kd[0] == 'swap':
            x, y = rnd.randrange(s[kd[1]]), rnd.randrange(s[kd[1]])
            cs.call(inst, f, [H32(x), H32(y)])
            c = cont[tkey(inst, kd[1])]
            # set(x, get(y)) happens after set(y, get(x)) was evaluated from old values
            ox, oy = c[x], c[y]
            c[y] = ox
            c[x] = oy
        elif kd[0] == 'copy':
            body = m.funcs[f - m.nimp(0)][2]
            td, ts = body[3][1], body[3][2]
            n = rnd.randint(0, min(s[td], s[ts]))
            d, sr = rnd.randint(0, s[td] - n), rnd.randint(0, s[ts] - n)
            cs.call(inst, f, [H32(d), H32(sr), H32(n)])
            vals = cont[tkey(inst, ts)][sr:sr + n]
            cont[tkey(inst, td)][d:d + n] = vals
        elif kd[0] == 'call':
            c = cont[tkey(inst, kd[1])]
            ok = [x for x in range(s[kd[1]]) if c[x] is not None and sigof(c[x]) == sigs[kd[2]]]
            if ok:
                cs.call(inst, f, randargs(rnd, p[:-1], refs) + [H32(rnd.choice(ok))])
        if rnd.random() < 0.12:
            inst, m, s, fs, gs, ni = rnd.choice(insts)
            t = rnd.randrange(len(s))
            x = rnd.randrange(s[t])
            ref = rnd.choice(refs)
            cs.ptab(inst, 'tab%d' % t, x, ref)
            cont[tkey(inst, t)][x] = refv[ref]
        if rnd.random() < 0.1:
            inst, m, s, fs, gs, ni = rnd.choice(insts)
            cs.tab(inst, 'tab%d' % rnd.randrange(len(s)))
    for inst, m, s, fs, gs, ni in insts:
        for t in range(len(s)) if len(s) < 16 else sorted(rnd.sample(range(len(s)), 10)):
            cs.tab(inst, 'tab%d' % t)
        cs.glob(inst, 'g')
    return cs


# ------------------------------------------------------------------------------------------------ C12
def globals_case(rnd, cid, cfg=None):
    """globals of all types, initialisers of all forms, shared between two modules and the host"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    mode = rnd.choice([0, 1, 2])
    hg = []
    for k in range(rnd.randint(0, 3)):
        t = rnd.choice('iIfF')
        cs.hostglob(mk_nan_free(rnd, t))
        hg.append(t)

    def build(imports):
        m = Module()
        m.imports += imports
        nf = 0
        ts = [x[3][0] for x in imports]
        allts = list(ts)
        muts = [True] * len(ts)
        n = rnd.choice([1, 2, 5, 9, 17, 40, 130]) if rnd.random() < 0.4 else rnd.randint(1, 10)
        for _ in range(n):
            t = rnd.choice('iIfFr')
            prev = [k for k, x in enumerate(allts) if x == t]
            if prev and rnd.random() < 0.3:
                x = [(35, rnd.choice(prev))]
            elif t == 'r':
                x = [rnd.choice([(208, 'r'), (210, rnd.randrange(3))])]
            elif t in 'iI' and rnd.random() < 0.2:
                x = cexpr(rnd, t, prev, rnd.randint(1, 4))
            else:
                x = [const(t, mk_nan_free(rnd, t))]
            m.globs.append((t, True, x))
            allts.append(t)
        m.fn('', '', '', [])
        m.fn('i', 'i', '', [(32, 0)])
        m.fn('', 'i', '', [i32(3)])
        pick = sorted(rnd.sample(range(len(allts)), min(len(allts), 8)))
        fs = []
        for k in pick:
            t = allts[k]
            fs.append((m.fn('', t, '', [(35, k)]), '', k))
            fs.append((m.fn(t, t, '', [(32, 0), (36, k), (35, k)]), t, k))
            j = rnd.choice(pick)
            if allts[j] == t:   # exchange two globals
                fs.append((m.fn('', t + t, '', [(35, k), (35, j), (36, k), (36, j), (35, k), (35, j)]), '', k))
            if t in 'iI':
                fs.append((m.fn(t, t + t, t, [(35, k), (32, 0), (34, 1), (36, k), (35, k)]), t, k))
        for f, p, k in fs:
            m.exports.append(('f%d' % f, 0, f))
        for f in range(3):
            m.exports.append(('f%d' % f, 0, f))
        for k in range(len(allts)):
            m.exports.append(('g%d' % k, 3, k))
        return m, allts, fs

    a, ta, fa = build([('host', 'g%d' % k, 3, (t, True)) for k, t in enumerate(hg)])
    ia = cs.load(cs.module(a, rnd if rnd.random() < 0.3 else None), 'A', mode)
    sel = rnd.sample(range(len(ta)), min(len(ta), rnd.randint(1, 6)))
    b, tb, fb = build([('A', 'g%d' % k, 3, (ta[k], True)) for k in sel])
    ib = cs.load(cs.module(b, rnd if rnd.random() < 0.3 else None), 'B', mode)
    insts = [(ia, a, ta, fa), (ib, b, tb, fb)]
    refs = ['@0'] + ['@1.%d.%d' % (i, f) for i in (ia, ib) for f in range(3)]
    for _ in range(rnd.randint(15, 30)):
        inst, m, ts, fs = rnd.choice(insts)
        x = rnd.random()
        if x < 0.75:
            f, p, k = rnd.choice(fs)
            cs.call(inst, f, randargs(rnd, p, refs))
        elif x < 0.88:
            k = rnd.randrange(len(ts))
            cs.pglob(inst, 'g%d' % k, rnd.choice(refs) if ts[k] == 'r' else hx(mk_nan_free(rnd, ts[k])))
        else:
            cs.glob(inst, 'g%d' % rnd.randrange(len(ts)))
    for inst, m, ts, fs in insts:
        for k in range(len(ts)):
            cs.glob(inst, 'g%d' % k)
    return cs




def control_case(rnd, cid, cfg=None):
    """long and deep control structures: many nested labels, large branch tables, chains of blocks, loops entered again
    from deep inside; the result of a call tells which labels were left, in which order and how often"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    m = Module()
    fs = []
    add, mul, xor = (0x6a,), (0x6c,), (0x73,)

    def mix(k, loc=1):
        return [(32, loc), i32(33), mul, i32(k), xor, (33, loc)]

    def count(hi):
        return rnd.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33]) if rnd.random() < 0.5 else rnd.randint(1, hi)

    def targets(n, most):
        k = rnd.choice([0, 1, 2, n, n, n + 1, 2 * n, most])
        k = min(k, most)
        x = [rnd.randint(0, n) for _ in range(k)] if rnd.random() < 0.6 else [(j * rnd.choice([1, 3]) + 1) % (n + 1) for j in range(k)]
        return x, rnd.randint(0, n)

    def args_for(k):
        a = [0, 1, k - 1, k, k + 1, 0xffffffff, 0x80000000, 0x7fffffff, 127, 128, 255, 256, 65536]
        return [[H32(x & 0xffffffff)] for x in rnd.sample(a, 6)] + [[H32(rnd.randrange(k + 1))] for _ in range(4)]

    def nest(vals):
        """nested blocks left through a branch table, with or without a value on the way"""
        n = count(rnd.choice([20, 60, 150, 300]))
        ts, df = targets(n, rnd.choice([40, 130, 400]))
        if not vals:
            b = [(32, 0), (14, ts, df)]
            for k in range(n):
                kind = rnd.choice(['block'] * 6 + ['ift', 'ife', 'loop'])
                if kind == 'block':
                    b = [('block', '', b)]
                elif kind == 'ift':
                    b = [i32(1 + k), ('if', '', b, None if rnd.random() < 0.5 else mix(5))]
                elif kind == 'ife':
                    b = [i32(0), ('if', '', mix(6), b)]
                else:
                    b = [('block', '', [('loop', '', mix(k + 9))] + b)]
                b += mix(k) if rnd.random() < 0.9 else []
            f = m.fn('i', 'i', 'i', [('block', '', b), (32, 1)])
        else:
            pend = rnd.random() < 0.5
            b = ([i32(77)] if pend else []) + [(32, 0), i32(5), mul, (32, 0), (14, ts, df)]
            for k in range(n):
                b = [('block', 'i', b), i32(k + 3), rnd.choice([add, mul, xor])]
            f = m.fn('i', 'i', 'i', [('block', 'i', b)])
        fs.append((f, args_for(len(ts))))

    def chain():
        """blocks one after the other, each left early or not depending on a bit of the argument"""
        n = count(150)
        b = []
        for k in range(n):
            t = [(32, 0), i32(k % 32), (0x76,), i32(1), (0x71,)]
            kind = rnd.randrange(4)
            if kind == 0:
                b += [('block', '', t + [(13, 0)] + mix(k))]
            elif kind == 1:
                b += t + [('if', '', mix(k), mix(k + 7) if rnd.random() < 0.5 else None)]
            elif kind == 2:
                b += [('block', '', [('block', '', t + [(14, [1], 0)])] + mix(k))] + mix(k + 1)
            else:
                b += [(32, 1)] + t + [('if', 'i', [i32(k)], [(32, 0)])] + [add, (33, 1)]
        f = m.fn('i', 'i', 'i', b + [(32, 1)])
        fs.append((f, [[H32(rnd.getrandbits(32))] for _ in range(6)]))

    def loops():
        """loops inside loops; a branch table at the innermost place enters one of them again or leaves it"""
        n = rnd.choice([1, 2, 3, 5, 9, 20, 60, 140])
        rounds = rnd.randint(3, 14)
        # local 1: the mix, local 2: the rounds left, local 3: a pseudo random state
        step = [(32, 3), i32(1103515245), mul, i32(12345), add, (34, 3), i32(rnd.choice([5, 9, 16])), (0x76,), i32(2 * n + 1), (0x70,)]
        b = [(32, 2), (0x45,), (13, 2 * n)] + [(32, 2), i32(1), (0x6b,), (33, 2)]
        b += step + [(14, [rnd.randint(0, 2 * n - 1) for _ in range(2 * n)], rnd.randint(0, 2 * n - 1))]
        for k in range(n):
            b = [('block', '', [('loop', '', mix(2 * k) + b)])] + mix(2 * k + 1)
        f = m.fn('i', 'i', 'iii', [i32(rounds), (33, 2), (32, 0), (33, 3), ('block', '', b), (32, 1), (32, 3), add])
        fs.append((f, [[H32(rnd.getrandbits(32))] for _ in range(5)]))

    def ladder():
        """an if/else ladder and a value carried out of many levels, with operands waiting below at every level"""
        n = rnd.choice([1, 2, 4, 9, 16, 17, 24])    # fewer than 31 operands may wait
        b = [(32, 0)]
        for k in reversed(range(n)):
            els = [i32(k), (32, 0), xor] if rnd.random() < 0.7 else [i32(k), (12, rnd.randint(0, k))]
            b = [i32(k + 11), (32, 0), i32(rnd.choice([k, 3 * k, rnd.getrandbits(31)])), rnd.choice([(0x4b,), (0x46,), (0x48,), (0x4d,)]), ('if', 'i', b, els), add]
        f = m.fn('i', 'i', 'i', b)
        fs.append((f, args_for(n)))

    def long_loop():
        """a loop whose body is long: the branches back and out of it go far"""
        n = rnd.choice([1, 5, 10, 11, 12, 13, 14, 20, 100, 300])
        b = [(32, 2), (0x45,), (13, 1), (32, 2), i32(1), (0x6b,), (33, 2)]
        for k in range(n):
            b += mix(k) if rnd.random() < 0.9 else [(32, 0), i32(k), (0x46,), (13, rnd.randint(0, 1) if rnd.random() < 0.3 else 1)]
        b += [(12, 0)]
        f = m.fn('i', 'i', 'ii', [i32(rnd.randint(1, 4)), (33, 2), ('block', '', [('loop', '', b)]), (32, 1)])
        fs.append((f, args_for(n)))

    for g in rnd.sample([lambda: nest(False), lambda: nest(True), chain, loops, ladder, long_loop], 4):
        g()
    for f, _ in fs:
        m.exports.append(('f%d' % f, 0, f))
    inst = cs.load(cs.module(m, rnd if rnd.random() < 0.3 else None), 'A', rnd.choice([0, 1, 2]))
    todo = [(f, a) for f, al in fs for a in al]
    rnd.shuffle(todo)
    for f, a in todo[:16]:
        cs.call(inst, f, a)
    return cs


def wide_case(rnd, cid, cfg=None):
    """hundreds of everything: types, functions, globals, tables, segments, exports and imports with indices over one byte"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    mode = rnd.choice([0, 1, 2])

    def build(imports, tag):
        m = Module()
        N = rnd.choice([120, 129, 256, 257, 300, 520])
        salt = rnd.randrange(4 ** 5)
        for k in range(N):
            x = (k * 395 + salt) % 4 ** 5
            m.type(''.join('iIfF'[(x >> 2 * j) & 3] for j in range(5)) + 'fiI'[:k % 4], ('i', 'I', 'fi', 'iI')[x % 7 % 4])
        for im, fld, kind, d in imports:
            m.imports.append((im, fld, kind, m.type(*d) if kind == 0 else d))
        base = m.nimp(0)
        for k in range(N):
            p, r = m.types[(k * 7) % N]
            b = [i32(k * 0x01010101 & 0x7fffffff)] + [y for j, t in enumerate(p) if t == 'i' for y in ((32, j), (0x6a,))]
            m.fn(p, r, '', [y for t in r for y in ([const('f', mk_nan_free(rnd, 'f'))] if t == 'f' else b + [(0xac,)] * (t == 'I'))])
        gt = [d[0] for _, _, kind, d in imports if kind == 3]
        for k in range(rnd.choice([5, 130, 257, 300])):
            t = rnd.choice('iIfF')
            m.globs.append((t, True, [const(t, mk_nan_free(rnd, t))]))
            gt.append(t)
        nt = rnd.choice([1, 1, 2, 129, 257, 260])
        for k in range(nt):
            m.tables.append((N + 3 if k == 0 else 4, None))
        m.mems.append((1, 1))
        nf = base + N
        slot = [None] * (N + 3)
        for k in range(rnd.choice([3, 130, 260])):
            tab = 0 if rnd.random() < 0.7 else rnd.randrange(nt)
            o = rnd.randrange(N + 1 if tab == 0 else 2)
            fsx = [rnd.randrange(base, nf) for _ in range(2)]
            m.elems.append((0 if tab == 0 else 2, tab, [i32(o)], [[(210, f)] for f in fsx]))
            if tab == 0:
                slot[o:o + 2] = fsx
        for k in range(rnd.choice([3, 130, 260, 300])):
            m.datas.append((0, 0, [i32(k * 5)], bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 5)))))
        calls = []
        high = lambda n: rnd.choice([n - 1, rnd.randrange(n), max(0, min(n - 1, rnd.choice([126, 127, 128, 129, 255, 256, 257])))])
        for _ in range(4):
            k = high(N) + base
            p, r = m.types[m.ftypes()[k]]
            push = [(32, j) for j in range(len(p))]
            calls.append(m.fn(p, r, '', push + [(16, k)]))
            calls.append(m.fn(p, r, '', push + [(18, k)]))
            calls.append(m.fn(p, r, '', [i32(1), (210, k), (38, 0)] + push + [i32(1), (17, m.type(p, r), 0)]))
            g = high(len(gt))
            calls.append(m.fn(gt[g], gt[g] * 2, '', [(35, g), (32, 0), (36, g), (35, g)]))
        for _ in range(min(base, 8)):
            k = high(base)
            p, r = m.types[m.ftypes()[k]]
            calls.append(m.fn(p, 'I' + r, '', [i64(-7)] + [(32, j) for j in range(len(p))] + [(16, k)]))
        ss = [s for s in range(len(slot)) if slot[s] is not None and s != 1]
        for s in ss[-1:] + rnd.sample(ss, min(len(ss), 2)):
            p, r = m.types[m.ftypes()[slot[s]]]
            calls.append(m.fn(p, 'I' + r, '', [i64(-9)] + [(32, j) for j in range(len(p))] + [i32(s), (17, m.type(p, r), 0)]))
        for t in (high(nt), high(nt), nt - 1):
            calls.append(m.fn('', 'i', '', [i32(0), (37, t), (0xd1,), (FC + 16, t), (0x6a,)]))
            calls.append(m.fn('', 'ii', '', [i32(2), (210, nf - 1), (38, t), i32(2), (37, t), (0xd1,), i32(2), (37, 0), (0xd1,)]))
        calls.append(m.fn('i', 'ii', '', [(32, 0), (45, 0, 0), (32, 0), (40, 0, 700)]))
        for k in range(base + len(m.funcs)):
            m.exports.append(('f%d' % k, 0, k))
        for k in range(len(gt)):
            m.exports.append(('g%d' % k, 3, k))
        for f in rnd.sample(range(base, nf), 3):
            calls.append(f)
        inst = cs.load(cs.module(m, rnd if rnd.random() < 0.2 else None), tag, mode)
        for f in calls:
            p = m.types[m.ftypes()[f]][0]
            for _ in range(2):
                cs.call(inst, f, [H32(rnd.randrange(1400))] if p == 'i' and rnd.random() < 0.8 else randargs(rnd, p, []))
        for _ in range(4):
            cs.glob(inst, 'g%d' % high(len(gt)))
        return m, gt, base, nf

    a, ta, _, na = build([], 'A')
    if rnd.random() < 0.6:
        imps = [('A', 'f%d' % k, 0, a.types[a.ftypes()[k]]) for k in rnd.sample(range(na), min(na, rnd.choice([2, 130, 258])))]
        imps += [('A', 'g%d' % k, 3, (ta[k], True)) for k in rnd.sample(range(len(ta)), min(len(ta), rnd.choice([1, 130, 257])))]
        rnd.shuffle(imps)
        build(imps, 'B')
    return cs


def many(fn, rnd, n, prefix, **kw):
    return [fn(rnd, '%s%d' % (prefix, k), **kw) for k in range(n)]
