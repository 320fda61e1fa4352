"""Programs of vector operations: run by harness/lirun.c, decided by spec/Simd.tla."""
import json, re
import beh, lir, tlc

NV, NR = 15, 13
PAGE = 0x5a0000000
LEN1, LOC = 384, 256
BASES = (PAGE + 4096 - LEN1, PAGE + 0x10000, PAGE + 0x20000)   # data ends at the end of its page: nothing may read beyond
SPECIAL32 = ['00000000', '00000080', '0000807f', '000080ff', '01000000', 'ffff7f00', 'ffff7f7f', '0000803f', '0000c07f', '010080ff', '00008000']


def data(rnd, n):
    out = b''
    while len(out) < n:
        k = rnd.randrange(5)
        if k == 0:
            out += bytes(rnd.choice((0, 255, 128, 127, 1)) for _ in range(8))
        elif k == 1:
            out += b''.join(bytes.fromhex(rnd.choice(SPECIAL32)) for _ in range(2))
        elif k == 2:
            out += bytes(rnd.randrange(16) for _ in range(8))      # lane numbers
        else:
            out += bytes(rnd.randrange(256) for _ in range(8))
    return out[:n]


class Gen:
    def __init__(s, rnd, deck):
        s.rnd, s.deck = rnd, deck
        s.lines, s.ins = [], []
        s.fk = {}                    # float registers with a value, and its size

    def add(s, line, **i):
        s.lines.append(line)
        s.ins.append(i)

    def rset(s, r, v):
        w = [(v >> (8 * k)) & 255 for k in range(8)]
        s.add('op1 mov 8 r%d i%x' % (r, v & (1 << 64) - 1), a='rset', r=r, w=w)

    def at(s, region, off):
        """a way to write the address: the registers it needs are set right before"""
        rnd = s.rnd
        addr = BASES[region - 1] + off
        k = rnd.randrange(4)
        if k == 0:
            return 'm0,0,0,%x' % addr
        b = rnd.choice([r for r in range(1, NR + 1) if r != s.keep])
        if k < 3:
            d = rnd.choice((0, 0, rnd.randrange(-128, 128), rnd.randrange(-5000, 5000), rnd.randrange(-(1 << 31), 1 << 31), rnd.randrange(1 << 36)))
            s.rset(b, addr - d)
            return 'm%d,0,0,%x' % (b, d & (1 << 64) - 1)
        x = rnd.choice([r for r in range(1, NR + 1) if r not in (b, s.keep)])
        sh = rnd.randrange(4)
        iv = rnd.choice((0, 1, rnd.randrange(1 << 20), -rnd.randrange(1 << 20)))
        s.rset(x, iv)
        s.rset(b, addr - (iv << sh))
        return 'm%d,%d,%d,0' % (b, x, sh)

    def memop(s, n, al=0, store=False):
        """(text, operand) for n bytes of memory aligned to 2^al"""
        rnd = s.rnd
        if not al and rnd.random() < 0.3:
            off = rnd.choice((0, rnd.randrange(LOC - n + 1), LOC - n))
            return 's%d' % off, ['m', 4, off]
        step = max(1, 1 << al)
        top = (LEN1 - n) // step
        off = step * rnd.choice((rnd.randrange(top + 1), top))
        return s.at(1, off), ['m', 1, off]

    def vreg(s):
        return s.rnd.randrange(1, NV + 1) if s.rnd.random() < 0.4 else s.rnd.choice(s.few)

    def other(s, v):
        """a second vector register, often the same"""
        return v if s.rnd.random() < 0.3 else s.vreg()

    def fval(s, es, avoid=0):
        """a float register with a value of the size"""
        n = 1 << es
        c = [f for f, m in s.fk.items() if m == n]
        if c and s.rnd.random() < 0.6:
            return s.rnd.choice(c)
        f = avoid if avoid and s.rnd.random() < 0.3 else s.vreg()
        t, o = s.memop(n)
        s.add('fop1 mov %d f%d %s' % (n, f, t), a='fld', f=f, n=n, o=o)
        s.fk[f] = n
        return f

    def size(s, kind):
        """register size, element size and kind of the elements, dealt so that every form comes up"""
        return s.deck.next(kind)

    def imm(s, es):
        r = s.rnd
        return r.choice((0, (1 << 64) - 1, 1, 1 << 63, r.randrange(256), r.randrange(1 << 16), r.randrange(1 << 32), r.randrange(1 << 64), (1 << 64) - r.randrange(1 << 31), 0xffffffff, 0x80000000, 0x7fffffff, 0x100000000)) & (1 << 64) - 1

    def op(s):
        rnd = s.rnd
        s.keep = 0
        kind = rnd.choice(('mov', 'rep', 'lan', 'lan', 'lan', 'lrp', 'ext', 'sgn', 'op2'))
        f = s.size(kind)
        rs, es, fl = f[:3]
        n = 1 << rs
        v = s.vreg()
        b = dict(rs=rs, es=es, fl=bool(fl))
        ok = rs in (4, 5)
        if rnd.random() < 0.12:
            s.flag = 2                # the flag crosses what comes next
            r = rnd.randrange(1, NR + 1)
            x = rnd.randrange(4)
            s.rset(r, x)
            y = rnd.choice((x, 9))
            s.add('op2 sub 8 1 -1 n r%d i%x' % (r, y), a='zset', r=r, w=[y] + [0] * 7)
        if kind == 'mov':
            st = rnd.random() < 0.4
            if rnd.random() < 0.3:
                w = s.other(v)
                t, o, al = 'v%d' % w, ['v', w], 0
            else:
                al = rnd.choice((0, 0, rnd.randrange(rs + 1), rs))
                t, o = s.memop(n, al, st)
            t = t if t[0] != 'v' else t[1:]
            s.add('vmov %d %d %d %d %d %d %s' % (st, fl, rs, es, al, v, t if o[0] == 'm' else 'v' + t), a='mov', st=st, v=v, o=o, **b)
            s.wrote(o[1] if st and o[0] == 'v' else 0 if st else v)
        elif kind == 'rep':
            e = 1 << es
            if fl:
                k = rnd.randrange(5)
                if k == 0 or es not in (2, 3):
                    t, o = 'i0', ['i', [0] * 8]
                elif k < 3:
                    w = s.fval(es, v)
                    t, o = 'f%d' % w, ['f', w]
                else:
                    t, o = s.memop(e)
            else:
                t, o = s.intsrc(es)
            s.add('vrep %d %d %d %d %s' % (fl, rs, es, v, t), a='rep', v=v, o=o, **b)
            s.wrote(v)
        elif kind == 'lan':
            st, z, sg, w32, ln = f[3:]
            e = 1 << es
            if fl and es in (2, 3) and rnd.random() < 0.6:
                w = s.fval(es, v) if not st else s.other(v)
                t, o = 'f%d' % w, ['f', w]
            elif fl or rnd.random() < 0.4:
                t, o = s.memop(e, 0, st)
            elif st:
                r = rnd.randrange(1, NR + 1)
                t, o = 'r%d' % r, ['r', r]
            else:
                t, o = s.intsrc(es)
            s.add('vlan %d %d %d %d %d %d %d %d %d %s' % (st, fl, rs, es, z, sg, w32, v, ln, t), a='lan', st=bool(st), z=bool(z), sg=bool(sg), w32=bool(w32), v=v, ln=ln, o=o, **b)
            s.wrote(0 if st else v)
            if st and o[0] == 'f':
                s.fk.pop(o[1], None)
                if ok and es in (2, 3):
                    s.lastf = (o[1], e)
                    t, o = s.memop(e)
                    s.add('fop1 mov %d %s f%d' % (e, t, s.lastf[0]), a='fst', f=s.lastf[0], n=e, o=o)
        elif kind == 'lrp':
            w = s.other(v)
            ln = f[3]
            s.add('vlrp %d %d %d %d %d %d' % (fl, rs, es, v, w, ln), a='lrp', v=v, v2=w, ln=ln, **b)
            s.wrote(v)
        elif kind == 'ext':
            e2, sg = f[3:]
            if rnd.random() < 0.5:
                w = s.other(v)
                t, o = 'v%d' % w, ['v', w]
            else:
                t, o = s.memop(n >> (e2 - es))
            s.add('vext %d %d %d %d %d %d %s' % (sg, fl, rs, es, e2, v, t), a='ext', sg=bool(sg), e2=e2, v=v, o=o, **b)
            s.wrote(v)
        elif kind == 'sgn':
            w32 = f[3]
            if rnd.random() < 0.6:
                r = rnd.randrange(1, NR + 1)
                t, o = 'r%d' % r, ['r', r]
            else:
                t, o = s.memop(4 if w32 else 8, 0, True)
            s.add('vsgn %d %d %d %d %d %s' % (fl, rs, es, w32, v, t), a='sgn', w32=bool(w32), v=v, o=o, **b)
        else:
            op = f[3]
            w = s.other(v)
            al = 0
            if rnd.random() < 0.5:
                x = rnd.choice((s.other(v), s.other(w)))
                t, o = 'v%d' % x, ['v', x]
            else:
                al = rnd.choice((0, 0, rnd.randrange(rs + 1), rs))
                t, o = s.memop(n, al)
            s.add('vop2 %s %d %d %d %d %d %d %s' % (op, fl, rs, es, al, v, w, t), a='op2', op=op, v=v, v1=w, o=o, **b)
            s.wrote(v)
        if s.flag:
            s.flag -= 1
            if not s.flag:
                r = rnd.randrange(1, NR + 1)
                s.add('opf mov 8 0 0 r%d' % r, a='zget', r=r)

    def intsrc(s, es):
        k = s.rnd.randrange(4)
        if k == 0:
            w = s.imm(es)
            if es < 3 and s.rnd.random() < 0.5:
                w &= (1 << (8 << es)) - 1
            return 'i%x' % w, ['i', [(w >> (8 * j)) & 255 for j in range(8)]]
        if k == 1:
            return s.memop(1 << min(es, 5))
        r = s.rnd.randrange(1, NR + 1)
        s.rset(r, s.imm(es))
        return 'r%d' % r, ['r', r]

    def wrote(s, v):
        s.fk.pop(v, None)


class Deck:
    def __init__(s, rnd, only=False):
        s.rnd, s.d, s.only = rnd, {}, only

    def forms(s, kind):
        out = []
        R = (4, 5)
        if kind == 'mov':
            out = [(r, e, f) for r in R for e in range(0, r + 1) for f in (0, 1) if (not s.only or not f or e in (2, 3)) and e <= 5]
        elif kind == 'rep':
            out = [(r, e, f) for r in R for e in range(r) for f in (0, 1)]
        elif kind == 'lan':
            for r in R:
                for e in range(r):
                    x = [(r, e, 1, 0, z, 0, 0) for z in (0, 1)] + [(r, e, 1, 1, 0, 0, 0)]
                    x += [(r, e, 0, 0, z, 0, w) for z in (0, 1) for w in ((0, 1) if e <= 2 else (0,))]
                    x += [(r, e, 0, 1, 0, g, w) for g in (0, 1) for w in ((0, 1) if e <= 2 else (0,))]
                    out += [y + (l,) for y in x for l in s.lanes(*y)]
        elif kind == 'lrp':
            out = [(r, e, f, l) for r in R for e in range(r) for f in (0, 1) for l in s.lanes(r, e, f)]
        elif kind == 'ext':
            out = [(r, e, f, d, g) for r in R for d in range(1, 4) for e in range(d) for f in (0, 1) for g in (0, 1) if not (f and g)]
        elif kind == 'sgn':
            out = [(r, e, f, w) for r in R for e in range(r) for f in (0, 1) for w in (0, 1)]
        else:
            out = [(r, e, f, o) for r in R for e in range(0, 4) for f in (0, 1) for o in ('and', 'or', 'xor')] + [(r, 0, 0, 'shuf') for r in R for _ in range(6)]
        if s.only:
            out = [x for x in out if x[1] <= 3 and (not x[2] or x[1] >= 2) and not (kind == 'op2' and x[3] == 'shuf' and x[0] == 5) and not (kind == 'ext' and x[2] and x[1:4] != (2, 1, 3))]
        else:
            out += [tuple([s.rnd.choice((3, 6))] + list(x[1:])) for x in s.rnd.sample(out, 3 + len(out) // 60) if x[1] < 3 and (kind != 'ext' or x[3] < 3) and (kind not in ('lan', 'lrp') or x[-1] < 1 << (3 - x[1]))]
        s.rnd.shuffle(out)
        return out

    def lanes(s, r, e, f, *_):
        """all of them, of what can be supported"""
        n = 1 << (r - e)
        return range(n) if not f or e in (2, 3) else (s.rnd.randrange(n),)

    def next(s, kind):
        if not s.d.get(kind):
            s.d[kind] = s.forms(kind)
        return s.d[kind].pop()


def case(rnd, cid, deck, vex, nops=24, short=False):
    g = Gen(rnd, deck)
    g.flag, g.keep = 0, 0
    g.few = rnd.sample(range(1, NV + 1), 4)
    mem = [data(rnd, LEN1), data(rnd, 32 * NV), data(rnd, 8 * NR)]
    lines = ['region %d %x %d %s' % (k + 1, BASES[k], len(mem[k]), mem[k].hex()) for k in range(3)]
    g.lines += ['label 0', 'vent %d %d %d %d %d %d' % (vex, 7, 6, NV, NV, LOC)]
    full = range(1, NV + 1) if not short else range(1, 2)
    for k in rnd.sample(full, len(full)):     # values for the registers
        off = rnd.randrange(LEN1 - 31)
        for rs in (4, 5):
            g.add('vmov 0 0 %d 0 0 %d m0,0,0,%x' % (rs, k, BASES[0] + off), a='mov', st=False, v=k, o=['m', 1, off], rs=rs, es=0, fl=False)
    for r in range(1, NR + 1):
        g.rset(r, rnd.randrange(1 << 64))
    for o in range(0, LOC if not short else 32, 32):                     # and the locals
        v = rnd.randrange(1, NV + 1)
        for rs, d in ((4, 0), (4, 16), (5, 0)):
            g.add('vmov 1 0 %d 0 0 %d s%d' % (rs, v, o + d), a='mov', st=True, v=v, o=['m', 4, o + d], rs=rs, es=0, fl=False)
    for _ in range(nops):
        g.op()
    if rnd.random() < 0.5 and g.flag:
        r = rnd.randrange(1, NR + 1)
        g.add('opf mov 8 0 0 r%d' % r, a='zget', r=r)
    for k in full:
        for rs in (4, 5):
            g.add('vmov 1 0 %d 0 0 %d m0,0,0,%x' % (rs, k, BASES[1] + 32 * (k - 1)), a='mov', st=True, v=k, o=['m', 2, 32 * (k - 1)], rs=rs, es=0, fl=False)
    g.add('dmp 7 6 0', a='dump')
    for j in range(8):                              # and the locals, over the data
        g.add('vmov 0 0 4 0 0 1 s%d' % (32 * j), a='mov', st=False, v=1, o=['m', 4, 32 * j], rs=4, es=0, fl=False)
        g.add('vmov 1 0 4 0 0 1 m0,0,0,%x' % (BASES[0] + 16 * j), a='mov', st=True, v=1, o=['m', 1, 16 * j], rs=4, es=0, fl=False)
    lines += g.lines + ['retv', 'gen', 'run 0 -']
    return lines, {'id': cid, 'ins': g.ins, 'mem': [list(m) for m in mem], 'loc': LOC}


VEC = ('mov', 'rep', 'lan', 'lrp', 'ext', 'sgn', 'op2')


def attach(s, obs):
    r = [o for o in obs if o['e'] == 'run']
    v = [o for o in obs if o['e'] == 'vec']
    rc = iter(v[0]['rc'] if v else [])
    s['avx2'] = bool(v and v[0]['avx2'])
    s['rc'] = [next(rc, 7) if i['a'] in VEC else 0 for i in s['ins']]
    s['crash'] = '' if r else json.dumps(obs[-1:])
    s['cs'] = r[0]['cs'] if r else 1
    s['obs'] = [list(bytes.fromhex(x)) for x in r[0]['mem']] if r else [[], [], []]
    return s


def check(ctx, cases, work, shards=8):
    return tlc.check_traces(cases, work, 'Simd.tla', 'Simd.cfg', shards=shards, verdicts=('ok',), timeout=max(120, ctx.left() + 240))


def corrupt(s, k, rnd):
    s = json.loads(json.dumps(s))
    s['id'] = 'selftest-' + s['id']
    if k == 0:
        s['obs'][1] = [b ^ 1 for b in s['obs'][1]]
    elif k == 1:
        s['obs'][2] = [b ^ 128 for b in s['obs'][2]]
    elif k == 2:
        j = rnd.choice([j for j, i in enumerate(s['ins']) if i['a'] in VEC])
        s['rc'][j] = 1 - s['rc'][j]
    else:
        s['cs'] = 1001
    return s


def run(ctx, fl, n, prefix):
    rnd = ctx.rnd
    if not hasattr(ctx, 'simddeck'):
        ctx.simddeck = Deck(rnd)
    deck = ctx.simddeck
    cases = [case(rnd, '%s%d' % (prefix, j), deck, j % 2) for j in range(n)]
    x = lir.exe(ctx, fl)
    obs = beh.outputs(x, [(s['id'], ls) for ls, s in cases], ctx.sub('simd'))
    for _, s in cases:
        attach(s, obs[s['id']])
    good = [s for _, s in cases if not s['crash']]
    selft = [corrupt(s, k, rnd) for k, s in enumerate(good[:4])]
    v, d, st, tr = check(ctx, [s for _, s in cases] + selft, ctx.sub('simd'))
    ctx.states += st
    ctx.transitions += tr
    bad = []
    for ls, s in cases:
        ctx.count('%s:%s' % (fl, v[s['id']]))
        ctx.count('vector operations', sum(i['a'] in VEC for i in s['ins']))
        if v[s['id']] == 'bad':
            bad.append((ls, s))
        else:
            ctx.traces += 1
    for s in selft:
        if v[s['id'][9:]] == 'ok':
            if v[s['id']] != 'bad':
                raise tlc.ToolError('self test: a corrupted record was accepted: ' + s['id'])
            ctx.selftests += 1
    for ls, s in cases[:1]:
        ctx.sample({'case': s['id'], 'build': fl, 'program': [l for l in ls if l[0] == 'v' and not l.startswith('vmov')][:30]})
    for ls, s in bad[:6]:
        o2 = beh.outputs(x, [(s['id'], ls)], ctx.sub('again'))
        v2, d2, _, _ = check(ctx, [attach(json.loads(json.dumps(s)), o2[s['id']])], ctx.sub('again'), shards=1)
        if v2[s['id']] != 'bad':
            ctx.count('not confirmed')
            continue
        m = d2.get(s['id'], '')
        w = re.match(r'<<\s*"mismatch", ".*?", (\d+), "(.*?)", (.*)>>$', m, re.S)
        pc = int(w.group(1)) if w else 0
        what = '%s%s' % (w.group(2), ' ' + ls[5 + pc - 1] if w.group(2) == 'returned' else '') if w else '?'
        ctx.violation('%s|%s' % (s['id'], what), 'vector program %s (%s build): %s: %s' % (s['id'], fl, what, w.group(3)[:300] if w else m[:300]),
                      {'kind': 'simd', 'flavour': fl, 'script': ls, 'spec': s, 'real': o2[s['id']], 'mismatch': m[:4000]})


def replay(ctx, r):
    s = r['spec']
    o = beh.outputs(lir.exe(ctx, r['flavour']), [(s['id'], r['script'])], ctx.work)
    v, d, _, _ = check(ctx, [attach(s, o[s['id']])], ctx.sub('r'), shards=1)
    print(v, d)
    return 1 if v[s['id']] == 'bad' else 0
