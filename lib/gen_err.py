"""Memory that is refused while code is built: harness/lirerr.c builds generated programs again and again with refusals at
chosen points; spec/LirBuildTrace.tla decides what was recorded."""
import json, os, re
import build, beh, tlc, gen_lir, gen_simd, lir

FL = {'default': ['-DSLJIT_DEBUG=1'], 'oldcpu': ['-include', os.path.join(build.VERIF, 'harness', 'oldcpu.h'), '-DSLJIT_DEBUG=1'], 'prot': ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1'], 'wx': ['-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1', '-DSLJIT_DEBUG=0'], 'release': ['-DSLJIT_DEBUG=0', '-DSLJIT_VERBOSE=0']}


def exe(ctx, fl):
    def mk():
        o = os.path.join(ctx.work, 'lirerr-' + fl)
        h = os.path.join(build.VERIF, 'harness')
        build.compile(o, [os.path.join(h, 'lirerr.c'), os.path.join(build.REPO, lir.SRC)],
                      ['-include', os.path.join(h, 'lirerr_alloc.h'), '-I' + os.path.join(build.REPO, 'sljit/sljit_src'), '-I' + h, '-DSLJIT_CONFIG_AUTO=1', '-fsanitize=address', '-Wl,--wrap=mmap'] + FL[fl])
        return o
    return ctx.exe('lirerr-' + fl, mk)


def traces(i, obs):
    """one trace for every different record of the case"""
    r = [{'id': '%s#%d' % (i, j), 'at': e['way'], 'ev': e['ev']} for j, e in enumerate(o for o in obs if o['e'] == 'build')]
    if not obs or obs[-1]['e'] != 'builds':
        at = [o['way'] for o in obs if o['e'] == 'at']
        r.append({'id': '%s#crash' % i, 'at': at[-1] if at else [], 'ev': [{'k': 'create', 'rc': 0, 'null': 0, 'err': 0, 'f': 0, 'g': 0, 'x': 0, 'live': -1}]})
    return r


def check(ctx, ts, work, shards=8):
    return tlc.check_traces(ts, work, 'LirBuildTrace.tla', 'LirBuildTrace.cfg', shards=shards, verdicts=('ok',), timeout=max(120, ctx.left() + 240))


def corrupt(ts, rnd, n=6):
    out = []
    for t in rnd.sample(ts, len(ts)):
        if len(out) == n:
            break
        t2 = json.loads(json.dumps(t))
        es = [e for e in t2['ev'] if e['k'] in (('c', 'n', 'end', 'gen', 'create', 'd')[len(out) % 6])]
        if not es:
            continue
        e = rnd.choice(es)
        if e['k'] == 'c':
            e['rc'] = 2 - e['rc'] if e['rc'] in (0, 2) else 0
        elif e['k'] == 'end':
            e['live'] = 1
        else:
            e['null'] ^= 1
        t2['id'] = 'selftest-' + t['id']
        out.append(t2)
    return out


def wild(rnd, ls):
    """nothing of the code is run: frames may be of any size, locals anywhere in it"""
    out = []
    big = rnd.choice((4096, 5000, 8192, 12288, 20000, 65000, rnd.randrange(65536)))
    for l in ls:
        w = l.split()
        if w[0] in ('ent', 'ctx', 'vent') and rnd.random() < 0.8:
            k = 6 if w[0] == 'vent' else 7
            w[k] = str(max(int(w[k]), big))
            l = ' '.join(w)
        out.append(l)
    return out


def run(ctx, fl, kinds, n, ways, prefix):
    rnd = ctx.rnd
    decks = gen_lir.Decks(rnd)
    vdeck = gen_simd.Deck(rnd, only=True)
    cases = []
    for j in range(n):
        k = kinds[j % len(kinds)]
        i = '%s%d' % (prefix, j)
        if k == 'simd':
            ls, s = gen_simd.case(rnd, i, vdeck, j // len(kinds) % 2, 16, True)
        else:
            ls, s = gen_lir.case(rnd, i, k, decks, 0.3 if rnd.random() < 0.5 else 0)
        if rnd.random() < 0.4:
            ls = wild(rnd, ls)
        cases.append((i, ['ways %d %d %d' % (rnd.randrange(1 << 30), ways, 1000)] + ls))
    judge(ctx, fl, cases)


def judge(ctx, fl, cases):
    x = exe(ctx, fl)
    obs = beh.outputs(x, cases, ctx.sub('err'))
    ts = [t for i, _ in cases for t in traces(i, obs[i])]
    good = [t for t in ts if not t['id'].endswith('#crash')]
    selft = corrupt(good, ctx.rnd) if good else []
    first = {}                   # equal records are decided once
    for t in ts:
        first.setdefault(json.dumps(t['ev']), t)
    v, d, st, tr = check(ctx, list(first.values()) + selft, ctx.sub('err'))
    for t in ts:
        f = first[json.dumps(t['ev'])]['id']
        v[t['id']] = v[f]
        if f in d:
            d.setdefault(t['id'], d[f])
    ctx.count('different records', len(first))
    ctx.states += st
    ctx.transitions += tr
    bad = {}
    for t in ts:
        ctx.count('%s:%s' % (fl, v[t['id']]))
        if v[t['id']] == 'bad':
            bad.setdefault(t['id'].split('#')[0], []).append(t)
        else:
            ctx.traces += 1
    for i, _ in cases:
        ctx.count('programs')
        ctx.count('builds with refused memory', sum(e['n'] for e in obs[i] if e['e'] == 'builds'))
        ctx.count('places inside a call', sum(e['n'] for e in obs[i] if e['e'] == 'swept'))
    for t in selft:
        if v[t['id'][9:]] == 'ok':
            if v[t['id']] != 'bad':
                raise tlc.ToolError('self test: a corrupted record was accepted: ' + t['id'])
            ctx.selftests += 1
    if good:
        t = min(good, key=lambda t: abs(len(t['ev']) - 12))
        ctx.sample({'program': t['id'], 'way': t['at'], 'record': t['ev'][:30]})
    cs = dict(cases)
    for i in list(bad)[:6]:
        o2 = beh.outputs(x, [(i, cs[i])], ctx.sub('again'))
        v2, d2, _, _ = check(ctx, traces(i, o2[i]), ctx.sub('again'), shards=1)
        b2 = [k for k in v2 if v2[k] == 'bad']
        if not b2:
            ctx.count('not confirmed')
            continue
        t = [t for t in traces(i, o2[i]) if t['id'] == b2[0]][0]
        what = 'the program that builds it crashes' if b2[0].endswith('#crash') else d2.get(b2[0], '')[:300]
        ctx.violation('%s|%s' % (i, fl), 'building program %s (%s build) with memory refused as in %s: %s' % (i, fl, t['at'], what),
                      {'kind': 'err', 'flavour': fl, 'script': cs[i], 'id': i, 'real': o2[i][-3:], 'mismatch': d2.get(b2[0], '')[:2000]})


def replay(ctx, r):
    i = r['id']
    o = beh.outputs(exe(ctx, r['flavour']), [(i, r['script'])], ctx.work)
    v, d, _, _ = check(ctx, traces(i, o[i]), ctx.sub('r'), shards=1)
    print([k for k in v if v[k] == 'bad'], d)
    return 1 if 'bad' in v.values() else 0
