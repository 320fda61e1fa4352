"""Patterns and histories of match objects for the regex compiler: run by harness/regexrun.c, decided by spec/RegexTrace.tla."""
import json, os, itertools
import build, beh, tlc

FLAVOURS = {'default': [], 'release': ['-DSLJIT_DEBUG=0', '-DSLJIT_VERBOSE=0'], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']}


def exe(ctx, fl):
    def mk():
        o = os.path.join(ctx.work, 'rx-' + fl)
        R = build.REPO + '/sljit/'
        build.compile(o, [build.VERIF + '/harness/regexrun.c', R + 'regex_src/regexJIT.c', R + 'sljit_src/sljitLir.c'],
                      ['-include', build.VERIF + '/harness/regexmem.h', '-I' + R + 'regex_src', '-I' + R + 'sljit_src', '-I' + build.VERIF + '/harness', '-DSLJIT_CONFIG_AUTO=1'] + FLAVOURS[fl], ['-lpthread'])
        return o
    return ctx.exe('rx-' + fl, mk)


META = b'\\.()|*?+{}[]^$,-!'


class Gen:
    """pattern texts together with a way to draw strings they may match"""

    def __init__(self, r):
        self.r = r
        k = r.random()
        self.alpha = [97, 98, 99] if k < 0.45 else [97, 98] if k < 0.6 else [97, 98, 10, 13] if k < 0.75 else [97, 120, 0xe4, 0xff, 0x80, 0x7f, 0] if k < 0.9 else list(META) + [97]

    def ch(self):
        return self.r.choice(self.alpha)

    def lit(self, c):
        # only characters with a meaning need a backslash, any other may have one
        if c in b'\\.()|*?+[{^$' or self.r.random() < 0.05:
            return bytes([92, c])
        return bytes([c])

    def cset(self):
        r = self.r
        neg = r.random() < 0.35
        t, acc = b'', []
        if r.random() < 0.12:
            t += b']'
            acc.append((93, 93))
        for _ in range(r.randrange(0 if t else 1, 4)):
            esc = lambda c: bytes([92, c]) if c in b'\\]^-' or r.random() < 0.05 else bytes([c])
            if r.random() < 0.45:
                a, b = self.ch(), self.ch()
                if r.random() < 0.4:
                    b = min(255, a + r.randrange(4))
                t += esc(a) + b'-' + esc(b)
                acc.append((min(a, b), max(a, b)))
            else:
                a = self.ch()
                t += esc(a)
                acc.append((a, a))
        if r.random() < 0.1:
            t += b'-'
            acc.append((45, 45))
        t = (b'[^' if neg else b'[') + t + b']'
        ok = [c for c in set(self.alpha) | {a for a, _ in acc} | {b for _, b in acc} if any(a <= c <= b for a, b in acc) != neg]
        return t, (lambda: bytes([r.choice(ok)]) if ok else b'')

    def atom(self, d):
        r = self.r
        k = r.random()
        if k < 0.5 or d == 0:
            c = self.ch()
            return self.lit(c), lambda: bytes([c])
        if k < 0.58:
            return b'.', lambda: bytes([self.ch()])
        if k < 0.72:
            return self.cset()
        t, s = self.alt(d - 1)
        return b'(' + t + b')', s

    def quant(self, t, s, big):
        r = self.r
        k = r.random()
        m = (lambda: r.randrange(0, 9)) if big else (lambda: r.randrange(0, 4))
        if k < 0.25:
            return t + b'*', lambda: b''.join(s() for _ in range(r.randrange(4)))
        if k < 0.45:
            return t + b'+', lambda: b''.join(s() for _ in range(r.randrange(1, 4)))
        if k < 0.65:
            return t + b'?', lambda: s() if r.random() < 0.5 else b''
        a = m()
        if k < 0.75:
            return t + b'{%d}' % a, lambda: b''.join(s() for _ in range(a))
        if k < 0.82:
            return t + b'{%d,}' % a, lambda: b''.join(s() for _ in range(a + r.randrange(3)))
        b = a + m()
        if k < 0.87:
            return t + b'{,%d}' % b, lambda: b''.join(s() for _ in range(r.randrange(b + 1)))
        if k < 0.98:
            return t + b'{%d,%d}' % (a, b), lambda: b''.join(s() for _ in range(r.randrange(a, b + 1)))
        return t + r.choice([b'{,}', b'{1,1}', b'{0,0}', b'{,0}', b'{01}']), s

    def term(self, d):
        r = self.r
        t, s = self.atom(d)
        if r.random() < 0.12:
            t += b'{%d!}' % r.randrange(0, 6)
        if r.random() < 0.4:
            t, s = self.quant(t, s, r.random() < 0.1)
            if r.random() < 0.12:
                t, s = self.quant(t, s, False)
            if r.random() < 0.1:
                t += b'{%d!}' % r.randrange(0, 6)
        if r.random() < 0.03:
            t += r.choice([b'{', b'{3', b'{2,', b'{2,1}', b'{1x', b'{,x}', b'}', b']', b'{3!', b'{1,2'])
        return t, s

    def seq(self, d):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5]) if d < 3 or r.random() < 0.9 else 0
        ts = [self.term(d) for _ in range(n)]
        pre = b'{%d!}' % r.randrange(0, 6) if r.random() < 0.1 else b''
        return pre + b''.join(t for t, _ in ts), lambda: b''.join(s() for _, s in ts)

    def alt(self, d):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3])
        xs = [self.seq(d) for _ in range(n)]
        return b'|'.join(t for t, _ in xs), lambda: r.choice(xs)[1]()

    def pattern(self):
        r = self.r
        t, s = self.alt(r.choice([1, 2, 2, 3]))
        if r.random() < 0.2:
            t = b'^' + t
        if r.random() < 0.25:
            t = t + b'$'
        if r.random() < 0.08:      # anything
            t = bytearray(t)
            for _ in range(r.randrange(1, 3)):
                p = r.randrange(len(t) + 1)
                if r.random() < 0.5 and p < len(t):
                    del t[p]
                else:
                    t.insert(p, r.choice(META))
            t = bytes(t)
        return t, s

    def text(self, s, limit=18):
        r = self.r
        junk = lambda n: bytes(self.ch() if r.random() < 0.85 else r.choice(b'\n\r') for _ in range(r.randrange(n)))
        x = s() if r.random() < 0.85 else b''
        x = x[:limit]
        if r.random() < 0.25 and x:
            p = r.randrange(len(x))
            x = x[:p] + (junk(2) or b'') + x[p + r.randrange(2):]
        x = (junk(5) if r.random() < 0.6 else b'') + x + (junk(5) if r.random() < 0.6 else b'')
        if r.random() < 0.2:
            x += (s() if r.random() < 0.5 else b'')[:limit // 2] + junk(3)
        return x


def hexs(b):
    return b.hex() or '-'


def flags(r):
    f = 0
    for b, p in ((1, 0.15), (2, 0.2), (4, 0.35), (8, 0.3), (16, 0.05)):
        if r.random() < p:
            f |= b
    return f


def pieces(r, x):
    k = r.random()
    if k < 0.3:
        return [x]
    if k < 0.5:
        return [x[i:i + 1] for i in range(len(x))]
    out = []
    while x:
        n = r.randrange(0, 5) if r.random() < 0.9 else 0
        out.append(x[:n])
        x = x[n:]
    return out or [b'']


def case(r, i, fail=0.05):
    g = Gen(r)
    t, s = g.pattern()
    f = flags(r)
    ls = ['c %d %s %d' % (f, hexs(t), r.randrange(1, 30) if r.random() < fail else 0)]
    n = r.choice([1, 1, 1, 2, 3])
    todo = []
    for k in range(n):
        q = ['b %d' % k]
        for rep in range(r.choice([1, 1, 2, 2, 3])):
            if rep:
                q.append('r %d' % k)
            q += ['%s %d %s' % (r.choice('fffd'), k, hexs(p)) for p in pieces(r, g.text(s))]
        if r.random() < 0.2:
            q.append('x %d' % k)
            if r.random() < 0.5:
                q += ['b %d' % k, 'f %d %s' % (k, hexs(g.text(s)))]
        todo.append(q)
    while any(todo):
        q = r.choice([q for q in todo if q])
        for _ in range(r.randrange(1, 4)):
            if q:
                ls.append(q.pop(0))
    ls.append('e')
    return i, ls, {'pat': list(t), 'flags': f}


def small(alphabet, lo, hi, texts, fs, prefix, pick=lambda j: True):
    """every pattern of a length, under every option set, on a few texts"""
    out, j = [], 0
    for n in range(lo, hi + 1):
        for p in itertools.product(alphabet, repeat=n):
            for f in fs:
                j += 1
                if not pick(j):
                    continue
                t = bytes(p)
                ls = ['c %d %s 0' % (f, hexs(t)), 'b 0']
                for q, x in enumerate(texts):
                    if q:
                        ls.append('r 0')
                    ls += ['f 0 %s' % hexs(x[:len(x) // 2]), 'f 0 %s' % hexs(x[len(x) // 2:])]
                out.append(('%s%d' % (prefix, j), ls + ['e'], {'pat': list(t), 'flags': f}))
    return out


def trace(c, obs):
    i, ls, s = c
    ev = [dict(o=o.get('o', 'crash'), **{k: v for k, v in o.items() if k not in ('o',)}) for o in obs]
    return dict(id=i, pat=s['pat'], flags=s['flags'], ev=ev)


def corrupt(ts, rnd):
    out = []
    for t in rnd.sample(ts, min(len(ts), 200)):
        if len(out) == 4:
            break
        k = len(out) % 4
        t2 = json.loads(json.dumps(t))
        m = [e for e in t2['ev'] if e['o'] in ('feed', 'reset') and e['b'] >= 0]
        if not m:
            continue
        e = rnd.choice(m)
        if k == 0:
            e['e'] += 1
        elif k == 1:
            e['b'] = -1
        elif k == 2:
            e['id'] += 1
        else:
            t2['ev'][0]['err'] = 2
        t2['id'] = 'selftest-' + t['id']
        out.append(t2)
    return out


def text(b):
    return bytes(b).decode('latin1').encode('unicode_escape').decode()


def judge(ctx, fl, cases, prefix):
    x = exe(ctx, fl)
    env = {'UBSAN_OPTIONS': 'abort_on_error=1'} if fl == 'asan' else None
    run = lambda cs, w: beh.outputs(x, [(i, ls) for i, ls, _ in cs], ctx.sub(w), env=env)
    obs = run(cases, 'rx')
    ts = [trace(c, obs[c[0]]) for c in cases]
    selft = corrupt(ts, ctx.rnd)
    chk = lambda t, w, **k: tlc.check_traces(t, ctx.sub(w), 'RegexTrace.tla', 'RegexTrace.cfg', verdicts=('ok', 'undet'), timeout=max(120, ctx.left() + 240), **k)
    v, d, st, gen = chk(ts + selft, 'rx')
    ctx.states += st
    ctx.transitions += gen
    bad = []
    for k, c in enumerate(cases):
        i = c[0]
        ctx.count('%s:%s' % (fl, v[i]))
        ctx.count('steps', len(obs[i]))
        ctx.count('matches', sum(1 for e in obs[i] if e.get('b', -1) >= 0))
        ctx.count('refused patterns', sum(1 for e in obs[i] if e.get('err', 0)))
        if v[i] == 'bad':
            bad.append(k)
        else:
            ctx.traces += 1
    for t in selft:
        if v[t['id'][9:]] == 'ok':
            if v[t['id']] != 'bad':
                raise tlc.ToolError('self test: a corrupted history was accepted: ' + t['id'])
            ctx.selftests += 1
    ok = [c for c in cases if v[c[0]] == 'ok' and len(c[1]) > 5]
    if ok:
        c = min(ok, key=lambda c: len(c[1]))
        ctx.sample({'case': c[0], 'pattern': text(c[2]['pat']), 'flags': c[2]['flags'], 'history': c[1][:40]})
    bad.sort(key=lambda k: (len(cases[k][2]['pat']), len(cases[k][1])))
    for k in bad[:6]:
        c = cases[k]
        o2 = run([c], 'again')
        v2, d2, _, _ = chk([trace(c, o2[c[0]])], 'again', shards=1)
        if v2[c[0]] != 'bad':
            ctx.count('not confirmed')
            continue
        ctx.violation('%s|%s' % (c[0], fl), 'pattern %s, options %d (%s build): %s' % (text(c[2]['pat']), c[2]['flags'], fl, d2.get(c[0], '')[:300]),
                      {'kind': 'rx', 'flavour': fl, 'case': list(c), 'real': o2[c[0]]})
    return bad


def replay(ctx, r):
    c = r['case']
    x = exe(ctx, r['flavour'])
    env = {'UBSAN_OPTIONS': 'abort_on_error=1'} if r['flavour'] == 'asan' else None
    o = beh.outputs(x, [(c[0], c[1])], ctx.work, env=env)
    v, d, _, _ = tlc.check_traces([trace(c, o[c[0]])], ctx.sub('r'), 'RegexTrace.tla', 'RegexTrace.cfg', shards=1, verdicts=('ok', 'undet'))
    print(v, d)
    return 1 if v[c[0]] == 'bad' else 0
