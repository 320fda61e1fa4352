"""Loading: shapes of binaries, names and bindings (C13), refusals (C27), lifetimes (C18)."""
import struct
from wasm import *
from gen_num import ival, fval, pk
from gen_prog import randargs
import gen_prog
from gen_dir import H32, mk_nan_free, widen

NAMECH = 'abcdefgxyzABC_.$-0123456789/:*'


def weird_name(rnd, taken):
    while True:
        x = rnd.random()
        n = rnd.choice([1, 2, 3, 7, 8, 31, 32, 63, 64, 126, 127, 128, 129, 200, 254, 255]) if x < 0.6 else rnd.randint(1, 20)
        if rnd.random() < 0.25:
            s = ''.join(rnd.choice('äßλ中😀éa ') for _ in range(n))
            while len(s.encode()) > 255:
                s = s[:-1]
        else:
            s = ''.join(rnd.choice(NAMECH) for _ in range(n))
        if rnd.random() < 0.3 and taken:      # close to a name already there
            b = rnd.choice(sorted(taken))
            s = rnd.choice([b[:-1], b + 'x', b[:-1] + 'q', 'x' + b, b.swapcase()])
            if len(s.encode()) > 255:
                continue
        if s and s not in taken and s.strip('0123456789') and not s.startswith('zq'):
            return s


def simple_fn(rnd, m, p=None, r=None):
    """a small function over its parameters and locals"""
    p = ''.join(rnd.choice('iIfF') for _ in range(rnd.choice([0, 0, 1, 2, 3]))) if p is None else p
    r = ''.join(rnd.choice('iIfF') for _ in range(rnd.choice([1, 1, 1, 2, 3]))) if r is None else r
    loc = ''.join(rnd.choice('iIfF') for _ in range(rnd.choice([0, 0, 1, 4, 30])))
    body = []
    vs = list(enumerate(p + loc))
    for t in r:
        c = [k for k, u in vs if u == t]
        x = rnd.random()
        if c and x < 0.4:
            body.append((32, rnd.choice(c)))
        elif c and x < 0.7:
            k = rnd.choice(c)
            body += [const(t, mk_nan_free(rnd, t)), (34, k)]
            if rnd.random() < 0.5:
                body += [(33, k), (32, k)]
        else:
            body.append(const(t, mk_nan_free(rnd, t)))
    return p, r, loc, body


SIG = ['', 'i', 'I', 'f', 'F', 'iI', 'Ff', 'iii', 'fFiI']


def shape_case(rnd, cid, cfg=None):
    """one module of unusual shape, possibly importing from host modules and an earlier module of the case"""
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    mode = rnd.choice([0, 1, 2])
    for h in range(6):
        p, r = rnd.choice(SIG), rnd.choice(SIG)
        cs.hostfn(h, p, r, [randargs(rnd, r) for _ in range(2)] if r else ())
    hg = [rnd.choice('iIfF') for _ in range(3)]
    for t in hg:
        cs.hostglob(pk('i', rnd.randint(0, 5)) if t == 'i' else mk_nan_free(rnd, t))
    hm = []
    for _ in range(rnd.randint(0, 2)):
        ini = rnd.randint(1, 2)
        hm.append((ini, ini + rnd.randint(0, 2)))
        cs.hostmem(*hm[-1])
    ht = []
    for _ in range(rnd.randint(0, 2)):
        ht.append(rnd.randint(2, 9))
        cs.hosttab([rnd.choice(['@0', '@2.%d' % rnd.randrange(6)]) for _ in range(ht[-1])])
    # further host modules with odd names, the same field meaning different things by module and kind
    xm = []
    if rnd.random() < 0.7:
        names = ['hosu', 'hos', 'host2', 'HOST', 'pwart_builtin', 'a' * rnd.choice([1, 100, 240]), 'ä中', 'm m', '.']
        rnd.shuffle(names)
        fields = ['h0', 'f', 'version', 'x' * rnd.choice([1, 50, 200]), 'é', 'memory', 'f ', 'F', '']
        for n in names[:rnd.randint(1, 4)]:
            cs.hmod(n)
            t = []
            for fld in rnd.sample(fields, rnd.randint(1, 5)):
                for kind, cnt in ((0, 6), (1, len(ht)), (2, len(hm)), (3, len(hg))):
                    if cnt and rnd.random() < 0.6:
                        k = rnd.randrange(cnt)
                        cs.halias(n, fld, kind, k)
                        t.append((fld, kind, k))
            if t:
                xm.append((n, t))
    insts = []
    for step in range(rnd.choice([1, 1, 2])):
        m, calls, names = shape_module(rnd, cs, hg, hm, ht, xm, insts)
        i = cs.load(cs.module(m, rnd if rnd.random() < 0.6 else None), 'M%d' % step, mode)
        insts.append((i, m))
        if mode == 2 and rnd.random() < 0.5:
            cs.cmd('CFREE %d' % i)
        shape_probe(rnd, cs, i, m, calls, names)
    return cs


def shape_module(rnd, cs, hg, hm, ht, xm, insts):
    m = Module()
    if rnd.random() < 0.5:
        m.groups = rnd
    big = rnd.random() < 0.15
    for _ in range(rnd.choice([0, 0, 1, 5, 20, 130]) if rnd.random() < 0.7 else 0):
        p = ''.join(rnd.choice('iIfF') for _ in range(rnd.choice([0, 1, 2, 5, 12])))
        r = ''.join(rnd.choice('iIfF') for _ in range(rnd.choice([0, 1, 2, 5])))
        m.type(p, r)
    if rnd.random() < 0.1:
        m.type(''.join(rnd.choice('iIfF') for _ in range(rnd.choice([127, 128, 200, 255]))), 'i' * rnd.choice([0, 1, 255]))
    # imports in any order of kinds
    imps = []
    for _ in range(rnd.choice([0, 1, 2, 4, 8])):
        x = rnd.random()
        if x < 0.45 or not xm:
            h = rnd.randrange(6)
            p, r = cs.hostt[h]
            imps.append(('host', 'h%d' % h, 0, ('T', p, r)))
        else:
            n, t = rnd.choice(xm)
            fld, kind, k = rnd.choice(t)
            d = [lambda: ('T',) + cs.hostt[k], lambda: (rnd.randint(0, ht[k]), None),
                 lambda: (rnd.randint(0, hm[k][0]), rnd.choice([None, hm[k][1]])), lambda: (hg[k], True)][kind]()
            imps.append((n, fld, kind, d))
    if rnd.random() < 0.5:
        k = rnd.randrange(len(hg))
        imps.append(('host', 'g%d' % k, 3, (hg[k], True)))
    if hm and rnd.random() < 0.5:
        k = rnd.randrange(len(hm))
        imps.append(('host', 'm%d' % k, 2, (hm[k][0], hm[k][1])))
    if ht and rnd.random() < 0.5:
        k = rnd.randrange(len(ht))
        imps.append(('host', 't%d' % k, 1, (ht[k], ht[k])))
    if rnd.random() < 0.3:
        a = cs.resolve('pwart_builtin', 'version', 0)['a']
        imps.append(('pwart_builtin', 'version', 0, ('T', '', 'i') if a[0] == 3 else ('T',) + cs.hostt[a[1]]))
    for i, m2 in insts:
        for n, kind, x in rnd.sample(m2.exports, min(len(m2.exports), rnd.randint(0, 5))):
            if kind == 0:
                imps.append(('M0', n, 0, ('T',) + m2.types[m2.ftypes()[x]]))
            elif kind == 1:
                imps.append(('M0', n, 1, (0, None)))
            elif kind == 2:
                imps.append(('M0', n, 2, (0, None)))
            else:
                imps.append(('M0', n, 3, m2.gtypes()[x]))
    rnd.shuffle(imps)
    # all functions have to come before own ones anyway; other kinds keep their relative order
    bt = {}
    for im, fld, k, d in imps:
        if k == 0:
            d = m.type(d[1], d[2])
        m.imports.append((im, fld, k, d))
    nif = m.nimp(0)
    # sizes of what is imported
    def sizes(kind):
        out = []
        for im, fld, k, d in m.imports:
            if k == kind:
                b = cs.resolve(im, fld, k)
                out.append(b)
        return out
    # memories, tables, globals
    for _ in range(rnd.choice([0, 1, 1, 2, 5])):
        a = rnd.choice([0, 1, 1, 2])
        m.mems.append((a, rnd.choice([None, a, a + 1, a + 2])))
    for _ in range(rnd.choice([0, 1, 1, 2, 6])):
        a = rnd.choice([0, 1, 4, 10, 10, 200])
        m.tables.append((a, rnd.choice([None, a, a + 3])))
    nig = m.nimp(3)
    for _ in range(rnd.choice([0, 1, 3, 3, 150 if big else 9])):
        t = rnd.choice('iIfF')
        src = [k for k in range(nig) if m.gtypes()[k][0] == t]
        if src and rnd.random() < 0.3:
            x = [(35, rnd.choice(src))]
        else:
            x = [const(t, mk_nan_free(rnd, t))]
        m.globs.append((t, rnd.random() < 0.7, x))
    # functions
    calls = []
    nf = rnd.choice([0, 1, 2, 5, 5, 9, 40, 140, 300]) if big else rnd.choice([0, 1, 2, 3, 5, 9, 20])
    calltypes = [k for k in range(nif)]
    for _ in range(nf):
        x = rnd.random()
        if x < 0.2 and nif:
            k = rnd.randrange(nif)      # forwards to an import
            p, r = m.types[m.imports_f(k)]
            f = m.fn(p, r, '', [(32, j) for j in range(len(p))] + [(16, k)])
        elif x < 0.3 and len(m.gtypes()):
            k = rnd.randrange(len(m.gtypes()))
            f = m.fn('', m.gtypes()[k][0], '', [(35, k)])
        elif x < 0.4 and len(m.tables):
            k = m.nimp(1) + rnd.randrange(len(m.tables))
            f = m.fn('', 'i', '', [(FC + 16, k)])
        elif x < 0.5 and len(m.mems):
            k = m.nimp(2) + rnd.randrange(len(m.mems))
            f = m.fn('', 'i', '', [(63, k)])
        else:
            p, r, loc, body = simple_fn(rnd, m)
            f = m.fn(p, r, loc, body)
        calls.append(f)
    if rnd.random() < 0.04:     # one very long body
        n = rnd.choice([3000, 12000])
        f = m.fn('i', 'i', '', [(32, 0)] + [y for k in range(n) for y in (i32(k * 77777), (rnd.choice([0x6a, 0x73, 0x6b]),))])
        calls.append(f)
    c = [k for k in range(nif + len(m.funcs)) if m.types[m.ftypes()[k]] == ('', '')]
    if c and rnd.random() < 0.6:
        m.start = rnd.choice(c)
    elif rnd.random() < 0.3:
        m.start = m.fn('', '', '', [])
    nfn = nif + len(m.funcs)
    # exports
    names = set()
    objs = [(0, k) for k in range(nif + len(m.funcs))] + [(1, k) for k in range(m.nimp(1) + len(m.tables))] + \
           [(2, k) for k in range(m.nimp(2) + len(m.mems))] + [(3, k) for k in range(len(m.gtypes()))]
    for kind, k in objs:
        n = 'zq%s%d' % ('ftmg'[kind], k)
        m.exports.append((n, kind, k))
    for _ in range(rnd.choice([0, 2, 5, 12])):
        if objs:
            kind, k = rnd.choice(objs)
            n = weird_name(rnd, names)
            names.add(n)
            m.exports.append((n, kind, k))
    if objs and rnd.random() < 0.2:
        m.exports.append(('', *rnd.choice(objs)))
        names.add('')
    rnd.shuffle(m.exports)
    # data and elements: sizes over the one-byte LEB limit, empty ones, offsets from imported globals
    def off(limit):
        gs = [k for k in range(nig) if m.gtypes()[k][0] == 'i' and m.imports_of(3)[k][0] == 'host']
        if gs and limit >= 6 and rnd.random() < 0.3:
            return [(35, rnd.choice(gs))], 5
        o = rnd.choice([0, limit, rnd.randint(0, limit)])
        return [i32(o)], o
    nim = m.nimp(2)
    msz = [min_size(cs, m, 2, k, hm, insts) * 65536 for k in range(nim)] + [a[0] * 65536 for a in m.mems]
    for _ in range(rnd.choice([0, 1, 3, 8])):
        c = [k for k, s in enumerate(msz) if s]
        if not c:
            break
        k = rnd.choice(c)
        n = rnd.choice([0, 1, 5, 16, 17, 127, 128, 129, 300, 20000 if rnd.random() < 0.1 else 3])
        o, _ = off(msz[k] - n - 6)
        m.datas.append((2 if k or rnd.random() < 0.3 else 0, k, o, bytes(rnd.randrange(256) for _ in range(n))))
    tsz = [min_size(cs, m, 1, k, ht, insts) for k in range(m.nimp(1))] + [a for a, _ in m.tables]
    for _ in range(rnd.choice([0, 1, 3, 6])):
        if rnd.random() < 0.25 and nfn:
            form = rnd.choice([1, 3, 5, 7])
            m.elems.append((form, 0, [], [[(210, rnd.randrange(nfn))] if form in (1, 3) or rnd.random() < 0.7 else [(208, 'r')] for _ in range(rnd.randint(0, 4))]))
            continue
        if not tsz:
            break
        k = rnd.randrange(len(tsz))
        if not nfn:
            n = 0
        else:
            n = rnd.randint(0, tsz[k])
        o, mx = off(tsz[k] - n)
        if mx + n > tsz[k]:
            o = [i32(0)]
        form = rnd.choice([0, 4]) if k == 0 and rnd.random() < 0.5 else rnd.choice([2, 6])
        es = [[(210, rnd.randrange(nfn))] if form in (0, 2) or rnd.random() < 0.7 else [(208, 'r')] for _ in range(n)]
        m.elems.append((form, k, o, es))
    if m.datas and rnd.random() < 0.4:
        m.datacount = True
    for _ in range(rnd.choice([0, 0, 1, 4])):
        nm = rnd.choice(['name', 'dylink', '', 'x' * rnd.choice([1, 127, 128, 498]), 'producers', '中'])
        m.customs.append((rnd.randint(0, 12), nm, bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 2, 10, 200])))))
    if rnd.random() < 0.2:
        widen(rnd, m, [k for k in range(len(msz)) if rnd.random() < 0.5])
    return m, calls, names


def min_size(cs, m, kind, k, hs, insts):
    """entries or pages of the k-th import of this kind at the time of loading (before any growth in this generator)"""
    im, fld, kk, d = m.imports_of(kind)[k]
    b = cs.resolve(im, fld, kk)
    if b['i']:
        i, m2 = [x for x in insts if x[0] == b['i']][0]
        x = [x for n, q, x in m2.exports if n == fld and q == kind][0]
        n2 = m2.nimp(kind)
        if x < n2:
            return min_size(cs, m2, kind, x, hs, insts)
        return (m2.tables if kind == 1 else m2.mems)[x - n2][0]
    a = b['a'][0]
    j = [int(n[1:]) for n, v in cs.haddr.items() if n[0] == 'htm'[kind] and v == a][0]
    return hs[j] if kind == 1 else hs[j][0]


def shape_probe(rnd, cs, i, m, calls, names):
    for n, kind, x in m.exports:
        if n.startswith('zq') and kind:
            cs.findp(i, kind, n)
    cs.start(i)
    cs.insp(i)
    for n, kind, x in m.exports:
        if rnd.random() < 0.7 or n in names:
            cs.find(i, kind, n)
        if rnd.random() < 0.15 or n in names:
            cs.find(i, rnd.choice([k for k in range(4) if k != kind]), n)
    some = [n for n, _, _ in m.exports] or ['zqf0']
    for _ in range(6):
        b = rnd.choice(some)
        cs.find(i, rnd.randrange(4), rnd.choice([b[:-1], b + 'x', b + b[:1], b[1:], b.upper(), 'nothing', '', 'zqf999']))
    todo = calls if len(calls) < 12 else rnd.sample(calls, 12)
    for f in todo:
        p = m.types[m.ftypes()[f]][0]
        cs.call(i, f, randargs(rnd, p))
    for n, kind, x in m.exports:
        if n.startswith('zq') and kind:
            {1: cs.tab, 2: cs.mem, 3: cs.glob}[kind](i, n)


# ------------------------------------------------------------------------------------------------ C27, C18
def state_module(rnd, hostfns, imports=()):
    """global, memory, table, host calls, floats, a jump table: everything an instance keeps"""
    m = Module()
    h = rnd.randrange(len(hostfns)) if hostfns else None
    if h is not None:
        m.imports.append(('host', 'h%d' % h, 0, m.type(*hostfns[h])))
    for x in imports:
        m.imports.append(x if x[2] else (x[0], x[1], 0, m.type(*x[3])))
    fs = {}
    gi, mi, ti = m.nimp(3), m.nimp(2), m.nimp(1)
    m.globs = [('i', True, [i32(rnd.randrange(1000))]), ('I', True, [i64(rnd.getrandbits(63))]), ('F', True, [const('F', mk_nan_free(rnd, 'F'))])]
    m.mems = [(1, rnd.choice([None, 1, 2, 3]))]
    m.tables = [(8, 8)]
    m.datas = [(2 if mi else 0, mi, [i32(0)], bytes(rnd.randrange(256) for _ in range(40)))]
    a, b = rnd.randrange(1, 2**31), rnd.randrange(1, 2**31)
    fs['k0'] = m.fn('', 'i', '', [i32(a)])
    fs['k1'] = m.fn('', 'i', '', [i32(b), (16, fs['k0']), (0x6a,)])
    fs['inc'] = m.fn('i', 'i', '', [(35, gi), (32, 0), (0x6a,), (36, gi), (35, gi)])
    fs['acc'] = m.fn('I', 'I', '', [(35, gi + 1), (32, 0), (0x85,), (36, gi + 1), (35, gi + 1)])
    fs['st'] = m.fn('iI', 'I', '', [(32, 0), (41, mi, 0), (32, 0), (32, 1), (55, mi, 0)])
    fs['flt'] = m.fn('F', 'F', '', [(32, 0), const('F', pk('F', 0x3ff8000000000000)), (0xa2,), (35, gi + 2), (0xa0,), (36, gi + 2), (35, gi + 2)])
    fs['sw'] = m.fn('i', 'i', '', [('block', '', [('block', '', [('block', '', [(32, 0), (14, [0, 1], 2)]), i32(a & 0xffff), (15,)]), i32(b & 0xffff), (15,)]), i32(77)])
    fs['tset'] = m.fn('ii', 'i', '', [(32, 0), (32, 1), (37, ti), (38, ti), (32, 0), (37, ti), (209,)])
    fs['ind'] = m.fn('i', 'i', '', [(32, 0), (17, m.type('', 'i'), ti)])
    fs['grow'] = m.fn('i', 'ii', '', [(32, 0), (64, mi), (63, mi)])
    sig = {'k0': '', 'k1': '', 'inc': 'i', 'acc': 'I', 'st': 'iI', 'flt': 'F', 'sw': 'i'}
    if h is not None:
        p, r = hostfns[h]
        fs['host'] = m.fn(p, r, '', [(32, j) for j in range(len(p))] + [(16, 0)])
        sig['host'] = p
    m.elems = [(2 if ti else 0, ti, [i32(0)], [[(210, fs['k0'] + (k % 2))] for k in range(6)])]
    for n, f in fs.items():
        m.exports.append((n, 0, f))
    m.exports += [('g0', 3, gi), ('g1', 3, gi + 1), ('g2', 3, gi + 2), ('mem', 2, mi), ('tab', 1, ti)]
    m.fs, m.sig = fs, sig
    return m


class St:
    """an instance of a state module and how far its memory has grown"""
    def __init__(self, i, m):
        self.i, self.m, self.pages = i, m, 1


def poke(rnd, cs, s, n=1):
    m = s.m
    for _ in range(n):
        x = rnd.random()
        if x < 0.6:
            f = rnd.choice(sorted(m.sig))
            p = m.sig[f]
            a = randargs(rnd, p)
            if f == 'st':
                a[0] = H32(rnd.choice([0, 8, 33, s.pages * 65536 - 8, rnd.randrange(s.pages * 65536 - 8)]))
            if f == 'sw':
                a[0] = H32(rnd.choice([0, 1, 2, 3, 0xffffffff]))
            if f == 'flt':
                a = [hx(pk('F', struct.unpack('<Q', struct.pack('<d', rnd.uniform(-5, 5)))[0]))]
            cs.call(s.i, m.fs[f], a)
        elif x < 0.7:
            cs.call(s.i, m.fs['tset'], [H32(rnd.randrange(6)), H32(rnd.randrange(6))])
        elif x < 0.8:
            cs.call(s.i, m.fs['ind'], [H32(rnd.randrange(6))])
        elif x < 0.87:
            d = rnd.choice([0, 1, 1, 40000])
            mx = m.mems[0][1]
            mx = 32768 if mx is None else mx
            cs.call(s.i, m.fs['grow'], [H32(d)])
            if s.pages + d <= mx:
                s.pages += d
        else:
            n = rnd.choice(['g0', 'g1', 'g2', 'mem', 'tab'])
            {'g': cs.glob, 'm': cs.mem, 't': cs.tab}[n[0]](s.i, n)


def look(cs, s):
    for n in ('g0', 'g1', 'g2'):
        cs.glob(s.i, n)
    cs.mem(s.i, 'mem')
    cs.tab(s.i, 'tab')


REFUSALS = ['header', 'short', 'unresolved', 'wrongkind', 'mem', 'tab', 'passive', 'dflag', 'eflag', 'typeblock', 'opcode', 'fcop',
            'xname', 'iname', 'sname', 'locals', 'params', 'results', 'count', 'nocode', 'overflow', 'constx', 'builtin', 'field', 'index', 'hmem', 'htab', 'nomem', 'nomem', 'bigtab']


def refused_module(rnd, cs, hostfns, why, insts):
    """a module that is fine but for one thing; the code around it is ordinary"""
    imports = []
    if insts and rnd.random() < 0.7:
        s = rnd.choice(insts)
        nm = cs.insts[s.i - 1][1]
        imports = [(nm, 'g0', 3, ('i', True)), (nm, 'k0', 0, ('', 'i'))]
        if rnd.random() < 0.5:
            imports.append((nm, 'mem', 2, (1, None)))
        if rnd.random() < 0.5:
            imports.append((nm, 'tab', 1, (8, None)))
    m = state_module(rnd, hostfns, imports)
    # nothing may have been written to what is imported when the refusal comes
    if m.nimp(2) and rnd.random() < 0.7:
        m.datas.insert(0, (0, 0, [i32(rnd.randrange(100))], b'refused!'))
    if m.nimp(1) and rnd.random() < 0.7:
        m.elems.insert(0, (rnd.choice([0, 4]), 0, [i32(rnd.randrange(6))], [[(210, m.fs['k0'])]]))

    def bad_fn(body, p='', r='', loc=''):
        m.funcs.insert(len(m.funcs) if rnd.random() < 0.5 else len(m.funcs), (m.type(p, r), loc, body))
    if why == 'header':
        h = bytearray(m.header)
        k = rnd.randrange(8)
        h[k] ^= 1 << rnd.randrange(8)
        m.header = bytes(h)
    elif why == 'short':
        m.short = rnd.randrange(8)
    elif why == 'unresolved':
        m.imports.insert(rnd.randint(0, len(m.imports)), (rnd.choice(['nomod', 'hos', 'hostt', 'pwart_builtin', 'pwart_builti', '']), 'x', 3, ('i', True)))
    elif why == 'field':
        m.imports.insert(rnd.randint(0, len(m.imports)), ('host', rnd.choice(['g', 'h99', 'g77', 'q0', '']), 3, ('i', True)))
    elif why == 'index' and insts:
        s = rnd.choice(insts)
        m.imports.insert(rnd.randint(0, len(m.imports)), (cs.insts[s.i - 1][1], rnd.choice(['g', 'g00', 'mem', 'G0', '', 'nothing']), 3, ('i', True)))
    elif why == 'wrongkind' and insts:
        s = rnd.choice(insts)
        m.imports.insert(rnd.randint(0, len(m.imports)), (cs.insts[s.i - 1][1], rnd.choice(['k0', 'mem', 'tab']), 3, ('i', True)))
    elif why == 'mem' and insts:
        s = rnd.choice(insts)
        mx = s.m.mems[0][1]
        m.imports.insert(rnd.randint(0, len(m.imports)), (cs.insts[s.i - 1][1], 'mem', 2, ((32768 if mx is None else mx) + rnd.choice([1, 2, 30000]), None)))
    elif why == 'tab' and insts:
        s = rnd.choice(insts)
        m.imports.insert(rnd.randint(0, len(m.imports)), (cs.insts[s.i - 1][1], 'tab', 1, (8 + rnd.choice([1, 2, 1000]), None)))
    elif why == 'hmem':      # more than it has now, though not more than it may have
        m.imports.insert(rnd.randint(0, len(m.imports)), ('host', 'm0', 2, (rnd.choice([3, 4, 5, 6]), rnd.choice([None, 5, 9]))))
    elif why == 'htab':
        m.imports.insert(rnd.randint(0, len(m.imports)), ('host', 't0', 1, (rnd.choice([5, 7, 9, 10]), rnd.choice([None, 9]))))
    elif why == 'nomem':
        pass
    elif why == 'bigtab':       # see the limit in wrun.c
        n = rnd.choice([0x60000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff])
        m.tables.insert(rnd.randint(0, len(m.tables)), (n, rnd.choice([None, n])))
        if rnd.random() < 0.7:
            m.elems.append((2, m.nimp(1) + rnd.randrange(len(m.tables)), [i32(rnd.randrange(3))], [[(210, 0)]]))
    elif why == 'passive':
        m.datas.insert(rnd.randint(0, len(m.datas)), (1, 0, [], b'abc'))
    elif why == 'dflag':
        m.datas.insert(rnd.randint(0, len(m.datas)), (rnd.choice([3, 4, 5, 7, 8, 255, 1000]), 0, [i32(0)], b'abc'))
    elif why == 'eflag':
        m.elems.insert(rnd.randint(0, len(m.elems)), (rnd.choice([8, 9, 16, 127, 128, 255]), 0, [], []))
    elif why == 'typeblock':
        t = m.type(*rnd.choice([('', ''), ('i', 'i'), ('', 'ii'), ('I', 'F')]))
        p, r = m.types[t]
        bad_fn([const(c, mk_nan_free(rnd, c)) for c in p] + [(rnd.choice(['block', 'loop']), ('T', t), [(26,)] * len(p) + [const(c, mk_nan_free(rnd, c)) for c in r])], '', r)
    elif why == 'opcode':
        bad_fn([(rnd.choice([6, 7, 8, 9, 10, 20, 21, 24, 25, 0x1d, 0x27, 197, 200, 207, 211, 212, 220, 250, 0xfd, 0xfe, 0xff]),)])
    elif why == 'fcop':
        bad_fn([i32(0), i32(0), i32(0), (FC + rnd.choice([18, 19, 20, 40, 100, 127]),)])
    elif why == 'xname':
        m.exports.insert(rnd.randint(0, len(m.exports)), ('n' * rnd.choice([256, 257, 300, 1000]), 0, m.fs['k0']))
    elif why == 'iname':
        a = rnd.choice([1, 250, 499, 500, 600, 5000])
        b = max(1, rnd.choice([499 - a, 500 - a, 600 - a, 4000]))
        m.imports.insert(rnd.randint(0, len(m.imports)), ('a' * a, 'b' * b, 3, ('i', True)))
    elif why == 'sname':
        m.customs.append((rnd.randint(0, 12), 's' * rnd.choice([500, 511, 512, 513, 2000]), b'xyz'))
    elif why == 'locals':
        m.funcs.append((m.type('', ''), ''.join(rnd.choice('iIfF') for _ in range(rnd.choice([256, 257, 300, 1000, 70000]))), []))
    elif why == 'params':
        m.type('i' * rnd.choice([256, 257, 1000]), '')
    elif why == 'results':
        m.type('', 'I' * rnd.choice([256, 300]))
    elif why == 'count':
        if rnd.random() < 0.5:
            m.extra_nf = rnd.randint(1, 3)
        else:
            m.extra_nc = rnd.randint(1, 3)
    elif why == 'nocode':
        m.nocode = True
    elif why == 'overflow':
        n = rnd.choice([64, 70, 200])
        t = rnd.choice('iIfF')
        x = rnd.random()
        if x < 0.5:
            bad_fn([const(t, mk_nan_free(rnd, t)) for _ in range(n)] + [(26,)] * n)
        elif x < 0.75:
            t = rnd.choice('iI')
            m.globs.append((t, True, [const(t, ival(rnd, t)) for _ in range(n)] + [(0x6a if t == 'i' else 0x7c,)] * (n - 1)))
        else:
            x = [i32(rnd.randrange(-2, 3)) for _ in range(n)] + [(0x6a,)] * (n - 1)
            if rnd.random() < 0.5 or not m.mems:
                m.elems.append((2, m.nimp(1), x, [[(210, 0)]]))
            else:
                m.datas.append((2, m.nimp(2), x, b'abc'))
    elif why == 'constx':
        m.badx = True
        bad = rnd.choice([[i32(1), i32(2), (0x6d,)], [(1,), i32(3)], [(63, 0)], [i32(7), (0x45,)], [i64(3), (0xa7,)]])
        if rnd.random() < 0.5:
            m.globs.append(('i', True, bad))
        else:
            m.elems.insert(rnd.randint(0, len(m.elems)), (2, m.nimp(1), bad, [[(210, 0)]]))
    elif why == 'builtin':
        m.imports.insert(rnd.randint(0, len(m.imports)), ('pwart_builtin', rnd.choice(['Version', 'version2', 'versio', 'memory', '']), 0, m.type('', 'i')))
    else:
        return None
    return m


def mixed_case(rnd, cid, cfg=None, refuse=0.35, free=0.1):
    """histories of loading, refusals, freeing and use of several small modules"""
    cs = Case(cid)
    cs.cmd('ASLIM')
    if cfg:
        cs.cfg(*cfg)
    hostfns = []
    for h in range(4):
        p, r = rnd.choice(SIG), rnd.choice(SIG)
        hostfns.append((p, r))
        cs.hostfn(h, p, r, [randargs(rnd, r) for _ in range(3)] if r else ())
    cs.hostglob(pk('i', 3))
    cs.hostmem(2, 5)
    cs.hosttab(['@0'] * 4, 9)
    mode0 = rnd.choice([0, 1, 2])
    live, users = [], {}
    mods = {}
    keep = set()
    n = 0
    for step in range(rnd.randint(10, 20)):
        x = rnd.random()
        if not live or x < 0.2:
            # load: a new module, the same binary again, or one importing from a live instance
            y = rnd.random()
            mode = mode0 if mode0 == 0 else rnd.choice([1, 2])
            if mods and y < 0.4:
                mi, m, deps = rnd.choice(sorted(mods.items(), key=lambda t: t[0]))[0], None, None
                m, deps = mods[mi]
                if any(d not in live for d in deps):
                    continue
            else:
                deps, imports = [], []
                if live and y > 0.7:
                    s = rnd.choice(live)
                    nm = cs.insts[s.i - 1][1]
                    imports = [(nm, 'g0', 3, ('i', True)), (nm, 'k1', 0, ('', 'i'))]
                    deps = [s]
                m = state_module(rnd, hostfns, imports)
                if imports:
                    f = m.fn('i', 'ii', '', [(35, 0), (32, 0), (0x6a,), (36, 0), (16, m.nimp(0) - 1), (35, 0)])
                    m.exports.append(('imp', 0, f))
                    m.fs['imp'], m.sig['imp'] = f, 'i'
                mi = cs.module(m, rnd if rnd.random() < 0.3 else None)
                mods[mi] = (m, deps)
            n += 1
            if len(cs.insts) >= 14:
                continue
            i = cs.load(mi, 'N%d' % n, mode)
            s = St(i, m)
            s.deps = deps
            live.append(s)
            if mode == 2:
                keep.add(i)
        elif x < 0.2 + refuse:
            why = rnd.choice(REFUSALS)
            if len(cs.mods) >= 14:
                continue
            m = refused_module(rnd, cs, hostfns, why, live)
            if m is None:
                continue
            mi = cs.module(m, rnd if rnd.random() < 0.2 else None)
            # possibly under the name of a live module, which has to stay
            nm = rnd.choice([cs.insts[s.i - 1][1] for s in live]) if live and rnd.random() < 0.4 else 'R%d' % step
            cs.meta.setdefault('why', {})[mi] = why
            nomem = ()
            if why == 'nomem':
                k = rnd.random()
                nf = len(m.funcs)
                nomem = (0, 0, rnd.randint(1, nf)) if k < 0.4 else (rnd.randint(1, 3 * nf), rnd.randrange(2), 0)
            cs.load(mi, nm, mode0, refused=True, nomem=nomem)
            cs.cmd('HEAP %d' % step)
            if live:
                poke(rnd, cs, rnd.choice(live), 2)
        elif x < 0.25 + refuse:
            if keep:
                i = rnd.choice(sorted(keep))
                keep.discard(i)
                cs.cmd('CFREE %d' % i)
                cs.cmd('HEAP %d' % step)
        elif x < 0.25 + refuse + free:
            c = [s for s in live if not any(s in t.deps for t in live)]
            if len(live) > 1 and c:
                s = rnd.choice(c)
                if s.i in keep:
                    keep.discard(s.i)
                    cs.cmd('CFREE %d' % s.i)
                live.remove(s)
                cs.free(s.i)
                cs.cmd('HEAP %d' % (step + 100))
        else:
            poke(rnd, cs, rnd.choice(live), rnd.randint(1, 4))
    for s in live:
        poke(rnd, cs, s, 3)
        look(cs, s)
    return cs


def refuse_case(rnd, cid, cfg=None):
    return mixed_case(rnd, cid, cfg, refuse=0.4, free=0.04)


def life_case(rnd, cid, cfg=None):
    return mixed_case(rnd, cid, cfg, refuse=0.08, free=0.15)


def twice_case(rnd, cid, cfg=None):
    """an arbitrary program instantiated twice, its calls interleaved with loading, freeing and heap reuse"""
    g = gen_prog.ProgGen(rnd, 'mix')
    m = g.program()
    cs = Case(cid)
    if cfg:
        cs.cfg(*cfg)
    for h, (p, r) in enumerate(g.hosts):
        cs.hostfn(h, p, r, [randargs(rnd, r, ('@0', '@2.0')) for _ in range(3)] if r else ())
    k = cs.module(m, rnd if rnd.random() < 0.4 else None)
    ms = rnd.choice([[0, 0], [1, 2], [2, 1], [2, 2], [1, 1]])
    junk = state_module(rnd, [])
    kj = cs.module(junk)
    ii = [cs.load(k, 'A', ms[0])]
    cs.cmd('HEAP 1')
    spent, live = 0, []
    fs = list(range(g.nh, len(g.sigs)))
    todo = [(f, w) for f in reversed(fs) for w in (0, 1)]
    kept = {0} if ms[0] == 2 else set()
    for n, (f, w) in enumerate(todo):
        x = rnd.random()
        if x < 0.15 and len(cs.insts) < 10:
            live.append(cs.load(kj, 'J%d' % n, ms[0] if ms[0] == 0 else 1))
        elif x < 0.3 and live:
            cs.free(live.pop(rnd.randrange(len(live))))
            cs.cmd('HEAP %d' % n)
        if w and len(ii) == 1:
            ii.append(cs.load(k, 'B', ms[1]))
            if ms[1] == 2:
                kept.add(1)
        if kept and rnd.random() < 0.4:
            j = kept.pop()
            cs.cmd('CFREE %d' % ii[j])
            cs.cmd('HEAP %d' % n)
        if spent > g.o['budget'] * 4:
            continue
        i = ii[w]
        a = randargs(rnd, g.sigs[f][0], ['@0', '@2.0'] + ['@1.%d.%d' % (j, q) for j in ii for q in fs])
        if f in g.recfn:
            a[0] = hx(pk('i', rnd.choice([0, 1, 2, 3, 9])))
        cs.call(i, f, a)
        spent += g.cost[f]
    for i in ii:
        for n, kind, x in m.exports:
            if kind:
                {1: cs.tab, 2: cs.mem, 3: cs.glob}[kind](i, n)
    return cs
