"""Behaviours generated by TLC from a specification, replayed on the real code; every observation is compared."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import tlc


def printed(out, tag='H'):
    """the JSON texts TLC printed as <<tag, "...">>"""
    res = []
    for m in re.finditer(r'<<\s*"%s",\s*("(?:\\.|[^"\\])*")\s*>>' % tag, out):
        try:      # a progress line of TLC may fall into the middle of one
            res.append(json.loads(json.loads(m.group(1).replace('\n', ''))))
        except ValueError:
            pass
    return res


def generate(ctx, module, cfg, name, sim=None, depth=None, seed=1, workers=1, timeout=200, heap='6g', env=None, tag='H', shards=7):
    """run TLC on a generator configuration (text); sim = number of random behaviours, otherwise exhaustive"""
    work = ctx.sub('gen-' + name)
    cf = os.path.join(work, 'gen.cfg')
    with open(cf, 'w') as f:
        f.write(cfg)
    if sim:
        n = max(1, min(shards, sim // 20))

        def one(j):
            w = os.path.join(work, str(j))
            os.makedirs(w, exist_ok=True)
            args = ['-deadlock', '-simulate', 'num=%d' % ((sim + n - 1) // n), '-depth', str(depth), '-seed', str(seed * 100 + j), '-aril', '0']
            return tlc.tlc(module, cf, w, env or {}, 1, '2g', args, timeout)
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(one, range(n)))
    else:
        outs = [tlc.tlc(module, cf, work, env or {}, workers, heap, ['-deadlock'], timeout)]
    hs = []
    for rc, out in outs:
        if rc != 0:
            raise tlc.ToolError('TLC exit %d on %s (%s): %s' % (rc, module, name, out[-1500:]))
        hs += printed(out, tag)
        if sim:
            m = re.findall(r'(\d+) states checked', out)
            ctx.states += int(m[-1]) if m else 0
            ctx.transitions += int(m[-1]) if m else 0
        else:
            a, b = tlc.states(out)
            ctx.add_model(name, b, a)
    if sim:      # TLC may print several endings of one behaviour: keep one
        seen, keep = set(), []
        for h in hs:
            k = json.dumps(h[:-1]) if isinstance(h, list) else json.dumps(h)
            if k not in seen:
                seen.add(k)
                keep.append(h)
        hs = keep
    return hs


def outputs(exe, cases, work, shards=8, timeout=600, env=None):
    """cases: [(id, lines)] -> {id: [json observations]}"""
    os.makedirs(work, exist_ok=True)
    n = max(1, min(shards, len(cases)))

    def one(k):
        part = cases[k::n]
        f = os.path.join(work, 's%d.txt' % k)
        with open(f, 'w') as o:
            for i, ls in part:
                o.write('CASE %s\n%s\nEND\n' % (i, '\n'.join(ls)))
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_segv=0'
        e.update(env or {})
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        r, cur = {}, None
        for line in p.stdout.decode(errors='replace').splitlines():
            if line.startswith('CASE '):
                cur = r.setdefault(line[5:], [])
            elif line.strip():
                try:
                    cur.append(json.loads(line))
                except ValueError:
                    cur.append({'e': 'garbled', 'text': line[:200]})
        if any({'e': 'harness'} in v for v in r.values()) or len(r) != len(part):
            raise RuntimeError('harness: ' + p.stderr.decode(errors='replace')[-800:])
        return r
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            res.update(r)
    return res


def differ(exp, real, eq):
    for k in range(max(len(exp), len(real))):
        if k >= len(exp) or k >= len(real) or not eq(exp[k], real[k]):
            return k
    return -1


def replay(ctx, exe, cases, label, eq=lambda a, b: a == b, kind='beh', extra={}):
    """cases: [(id, lines, expected)]"""
    if not cases:
        return
    real = outputs(exe, [(i, ls) for i, ls, _ in cases], ctx.sub('beh'))
    bad = []
    for i, ls, exp in cases:
        k = differ(exp, real[i], eq)
        ctx.count('steps', len(exp))
        if k >= 0:
            bad.append((i, ls, exp, k))
        else:
            ctx.traces += 1
    ctx.count(label + ':ok', len(cases) - len(bad))
    if bad:
        ctx.count(label + ':bad', len(bad))
    # self test: a changed expectation must be noticed
    for i, ls, exp in cases[:3]:
        if exp and differ(exp[:-1] + [{'changed': 1}], real[i], eq) < 0:
            raise tlc.ToolError('self test: a wrong expectation was accepted in ' + i)
        ctx.selftests += 1
    bad.sort(key=lambda b: (b[3], len(b[1])))
    for i, ls, exp, k in bad[:6]:
        r2 = outputs(exe, [(i, ls)], ctx.sub('again'))[i]
        k2 = differ(exp, r2, eq)
        if k2 < 0:
            ctx.count('not confirmed')
            continue
        e = json.dumps(exp[k2]) if k2 < len(exp) else 'the end'
        r = json.dumps(r2[k2]) if k2 < len(r2) else 'the end'
        ctx.violation('%s|%s' % (label, i), '%s %s step %d (%s): real %s, specification %s' % (
            label, i, k2, (ls[len(ls) - len(exp) + k2] if k2 < len(exp) <= len(ls) else '')[:80], r[:400], e[:400]),
            {**extra, 'kind': kind, 'id': i, 'script': ls, 'expected': exp, 'real': r2, 'harness': os.path.basename(exe)})


def again(ctx, r, exe, eq=lambda a, b: a == b):
    """run a recorded violation again"""
    script = r['script']
    if r.get('library'):     # the foreign library of the history
        import subprocess
        with open(ctx.work + '/lib.c', 'w') as f:
            f.write(r['library'])
        subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', ctx.work + '/lib.c', '-o', ctx.work + '/lib.so'], check=True)
        script = ['SO %s/lib.so' % ctx.work if s.startswith('SO ') else s for s in script]
    real = outputs(exe, [(r['id'], script)], ctx.work)[r['id']]
    k = differ(r['expected'], real, eq)
    print('agrees' if k < 0 else 'step %d: real %s, specification %s' % (k, json.dumps(real[k:k + 1]), json.dumps(r['expected'][k:k + 1])))
    return 1 if k >= 0 else 0
