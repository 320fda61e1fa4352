"""Programs of sljit's intermediate code: run by harness/lirun.c, decided by spec/Lir.tla."""
import json, os, random, re
import build, beh, tlc, gen_lir

SRC = 'sljit/sljit_src/sljitLir.c'
GUARD = ['-include', os.path.join(build.VERIF, 'harness', 'lirexec.h')]     # code ends at an inaccessible page
FLAVOURS = {'default': GUARD, 'prot': ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1'], 'wx': ['-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1', '-DSLJIT_DEBUG=0'], 'oldcpu': GUARD + ['-include', os.path.join(build.VERIF, 'harness', 'oldcpu.h')],     # processors without lzcnt, tzcnt, cmov, avx
            'release': GUARD + ['-DSLJIT_DEBUG=0', '-DSLJIT_VERBOSE=0']}


def exe(ctx, fl):
    def mk():
        o = os.path.join(ctx.work, 'lirun-' + fl)
        build.compile(o, [os.path.join(build.VERIF, 'harness', 'lirun.c'), os.path.join(build.REPO, SRC)],
                      ['-I' + os.path.join(build.REPO, 'sljit/sljit_src'), '-I' + os.path.join(build.VERIF, 'harness'), '-DSLJIT_CONFIG_AUTO=1'] + FLAVOURS[fl])
        return o
    return ctx.exe('lirun-' + fl, mk)


def check(ctx, cases, work, shards=8):
    """cases: [(lines, spec)]"""
    return tlc.check_traces([s for _, s in cases], work, 'Lir.tla', 'Lir.cfg', shards=shards, verdicts=('ok', 'undet'), timeout=max(120, ctx.left() + 240))


def corrupt(cases, rnd, n=3):
    out = []
    for ls, s in rnd.sample(cases, len(cases)):
        if len(out) == n:
            break
        a = [x for x in s['acts'] if x['a'] == 'run' and not x['crash'] and len(x['mem'][2]) >= 24]
        if not a:
            continue
        s2 = json.loads(json.dumps(s))
        a = [x for x in s2['acts'] if x['a'] == 'run'][0]
        k = len(out) % 3
        if k == 0:
            a['mem'][0] = [b ^ 1 for b in a['mem'][0]]     # a byte alone may be left open
        elif k == 1:
            a['cs'] = 1003
        else:
            a['calls'] = a['calls'] + [[1]]
        s2['id'] = 'selftest-' + s['id']
        out.append((ls, s2))
    return out


def run(ctx, kind, n, fl, prefix, ser=0.0, sweep=None):
    rnd = ctx.rnd
    decks = gen_lir.Decks(rnd)
    cases = [gen_lir.case(rnd, '%s%d' % (prefix, i), kind, decks, ser) for i in range(n)] if not sweep else [c for i in range(n) for c in gen_lir.sweep(rnd, '%s%d' % (prefix, i), *sweep)]
    x = exe(ctx, fl)
    raw = [(ls, json.loads(json.dumps(s))) for ls, s in cases]
    obs = beh.outputs(x, [(s['id'], ls) for ls, s in cases], ctx.sub('lir'))
    cases = [(ls, gen_lir.attach(s, obs[s['id']])) for ls, s in cases]
    selft = corrupt(cases, rnd)
    v, det, st, tr = check(ctx, cases + selft, ctx.sub('lir'))
    ctx.states += st
    ctx.transitions += tr
    bad = []
    for k, (ls, s) in enumerate(cases):
        i = s['id']
        ctx.count('%s %s:%s' % (kind, fl, v[i]))
        ctx.count('instructions', len(s['ins']))
        if v[i] == 'bad':
            bad.append(k)
        else:
            ctx.traces += 1
    for ls, s in selft:
        if v[s['id'][9:]] == 'ok':
            if v[s['id']] != 'bad':
                raise tlc.ToolError('self test: the specification accepted a corrupted observation of ' + s['id'])
            ctx.selftests += 1
    ok = [(ls, s) for ls, s in cases if v[s['id']] == 'ok']
    if ok:
        ls, s = min(ok, key=lambda c: len(c[1]['ins']))
        ctx.sample({'case': s['id'], 'kind': kind, 'build': fl, 'program': [l for l in ls if not l.startswith('region')][:60]})
    bad.sort(key=lambda k: len(cases[k][1]['ins']))
    for k in bad[:6]:
        ls, s = raw[k]
        o2 = beh.outputs(x, [(s['id'], ls)], ctx.sub('again'))
        s2 = gen_lir.attach(json.loads(json.dumps(s)), o2[s['id']])
        v2, d2, _, _ = check(ctx, [(ls, s2)], ctx.sub('again'), shards=1)
        if v2[s['id']] != 'bad':
            ctx.count('not confirmed')
            continue
        d = d2.get(s['id'], '')
        m = re.match(r'<<\s*"mismatch", "(.*?)", (\d+), "(.*?)", (.*)>>$', d, re.S)
        what = m.group(3) if m else '?'
        ctx.violation('%s|%s' % (s['id'], what), '%s program %s (%s build): %s differs in action %s' % (kind, s['id'], fl, what, m.group(2) if m else '?') + ': specification ' + (m.group(4)[:200] if m else d[:200]),
                      {'kind': 'lir', 'flavour': fl, 'script': ls, 'spec': s, 'real': o2[s['id']], 'mismatch': d[:3000]})


def replay(ctx, r):
    s = r['spec']
    o = beh.outputs(exe(ctx, r['flavour']), [(s['id'], r['script'])], ctx.work)
    v, d, _, _ = check(ctx, [(r['script'], gen_lir.attach(s, o[s['id']]))], ctx.sub('r'), shards=1)
    print(v, d)
    return 1 if v[s['id']] == 'bad' else 0
