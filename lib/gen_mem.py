"""Executable allocators (C23) and the growable stack (C24): histories from ExecAllocImpl.tla and GrowStack.tla."""
import os
import build, beh, tlc

FL = {'default': [], 'small': ['-DCHUNK_SIZE=(sljit_uw)0x400'], 'tiny': ['-DCHUNK_SIZE=(sljit_uw)0x180'], 'prot': ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1'], 'wx': ['-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1'],
      'simple': ['-DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1']}
EA = '''SPECIFICATION Spec
CONSTANTS
 ChunkU = %(chunk)d
 Sizes = {%(sizes)s}
 MaxLive = %(live)d
 MaxChunks = %(chunks)d
 Depth = %(depth)d
 Rand = %(rand)s
 Faults = %(faults)s
INVARIANT Inv
CHECK_DEADLOCK FALSE
'''
GS = '''SPECIFICATION Spec
CONSTANTS
 Page = %(page)d
 Regions = %(regions)s
 Depth = %(depth)d
INVARIANT Sane
INVARIANT EmitLong
CHECK_DEADLOCK FALSE
'''


def exe(work, fl):
    o = os.path.join(work, 'lib-%s.o' % fl)
    src = os.path.join(build.REPO, 'sljit/sljit_src/sljitLir.c')
    inc = ['-D_GNU_SOURCE', '-I' + os.path.join(build.REPO, 'sljit/sljit_src'), '-I' + os.path.join(build.VERIF, 'harness'), '-DSLJIT_CONFIG_AUTO=1'] + FL[fl]
    build.compile(o, [src], inc + ['-c', '-Dmmap=h_mmap', '-Dmunmap=h_munmap', '-Dmadvise=h_madvise', '-Dposix_madvise=h_madvise'])
    return build.compile(os.path.join(work, 'mem-' + fl), [os.path.join(build.VERIF, 'harness', 'memrun.c'), o], inc, ['-lpthread'])


def alloc_case(h):
    """the lines of a history"""
    out = []
    for e in h:
        if e['o'] == 'm':
            out.append('m %d' % e['n'])
        elif e['o'] == 'x':
            out += ['x', 'm %d' % e['n']]
        elif e['o'] == 'f':
            out.append('f %d' % e['n'])
        else:
            out.append('u')
    return out


def stack_case(cid, h):
    ls, exp, k = [], [], [[], []]
    for e in h:
        o = e['o']
        # which places are known is told before the step that makes the observation
        for q in (0, 1):
            ls.append('sk %d %s' % (q, ' '.join(map(str, e['known'][q]))))
        ls.append('%s %d %s' % (o[0], o[1] - 1, ' '.join(map(str, o[2:]))))
        exp.append(e['e'])
    return cid, ls, exp


def allocs(ctx, hs, fl, prefix, reuse):
    """replay histories on one build and let TLC judge what was recorded"""
    x = ctx.exe('mem-' + fl, lambda: exe(ctx.work, fl))
    cases = [(prefix + str(k), alloc_case(h)) for k, h in enumerate(hs)]
    obs = beh.outputs(x, cases, ctx.sub('ea'))
    judge(ctx, x, fl, cases, obs, reuse)


def tr(i, o, reuse):
    for e in o:
        if 'o' not in e:
            e.update(o='crash')
    return {'id': i, 'reuse': reuse, 'ev': o}


def corrupt(ts, rnd):
    import json
    out = []
    for t in rnd.sample(ts, min(len(ts), 30)):
        t = json.loads(json.dumps(t))
        m = [e for e in t['ev'] if e.get('o') == 'm' and e['c'] > 0 and len(e['mem']) > 1 and e['mem'][0][0] != e['i']]
        if not m:
            continue
        e = rnd.choice(m)
        k = len(out) % 3
        if k == 0:
            e['mem'][0][1] = (e['mem'][0][1] + 1) % 256
        elif k == 1:
            b = [f for f in t['ev'] if f.get('o') == 'm' and f['i'] == e['mem'][0][0]][0]
            e['c'], e['off'] = b['c'], b['off']
        else:
            e['off'] += 1
        t['id'] = 'selftest-' + t['id']
        out.append(t)
        if len(out) == 3:
            break
    return out


def threads(ctx, fl, n, prefix):
    """several threads at once on one allocator"""
    x = ctx.exe('mem-' + fl, lambda: exe(ctx.work, fl))
    cases = [('%s%d' % (prefix, k), ['T %d %d %d' % (ctx.rnd.randrange(1, 1 << 30), ctx.rnd.choice((2, 4, 8)), 700)]) for k in range(n)]
    judge(ctx, x, fl, cases, beh.outputs(x, cases, ctx.sub('ea'), shards=2), 0, again=20)


def judge(ctx, x, fl, cases, obs, reuse, again=1):
    ts = [tr(i, obs[i], reuse) for i, _ in cases]
    selft = corrupt(ts, ctx.rnd)
    v, d, st, gen = tlc.check_traces(ts + selft, ctx.sub('ea'), 'ExecAllocTrace.tla', 'ExecAllocTrace.cfg', verdicts=('ok',), timeout=max(120, ctx.left() + 240))
    ctx.states += st
    ctx.transitions += gen
    bad = []
    for k, (i, ls) in enumerate(cases):
        ctx.count('%s:%s' % (fl, v[i]))
        ctx.count('steps', len(obs[i]))
        if v[i] == 'bad':
            bad.append(k)
        else:
            ctx.traces += 1
    for t in selft:
        if v[t['id'][9:]] == 'ok':
            if v[t['id']] != 'bad':
                raise tlc.ToolError('self test: a corrupted history was accepted: ' + t['id'])
            ctx.selftests += 1
    bad.sort(key=lambda k: len(cases[k][1]))
    for k in bad[:6]:
        i, ls = cases[k]
        for _ in range(again):
            o2 = beh.outputs(x, [(i, ls)], ctx.sub('again'))
            v2, d2, _, _ = tlc.check_traces([tr(i, o2[i], reuse)], ctx.sub('again'), 'ExecAllocTrace.tla', 'ExecAllocTrace.cfg', shards=1, verdicts=('ok',))
            if v2[i] == 'bad':
                break
        else:
            ctx.count('not confirmed')
            continue
        ctx.violation('%s|%s' % (i, fl), 'allocator %s, history %s: %s' % (fl, i, d2.get(i, '')[:300]), {'kind': 'ea', 'flavour': fl, 'script': ls, 'id': i, 'reuse': reuse, 'real': o2[i]})


def replay(ctx, r):
    x = exe(ctx.work, r['flavour'])
    for _ in range(20 if r['script'][0][0] == 'T' else 1):   # what threads do differs from run to run
        o = beh.outputs(x, [(r['id'], r['script'])], ctx.work)
        v, d, _, _ = tlc.check_traces([tr(r['id'], o[r['id']], r['reuse'])], ctx.sub('r'), 'ExecAllocTrace.tla', 'ExecAllocTrace.cfg', shards=1, verdicts=('ok',))
        if v[r['id']] == 'bad':
            break
    print(v, d)
    return 1 if v[r['id']] == 'bad' else 0
