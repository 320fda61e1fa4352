"""Running TLC and reading its verdicts."""
import json, os, re, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg, work, env=None, workers=1, heap='2g', args=(), timeout=None):
    """run TLC in its own metadir; returns (rc, output)"""
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, 'meta')
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + work,
           '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
           '-config', cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def states(out):
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tuples(out):
    """the <<...>> values TLC printed (they may be wrapped over several lines)"""
    res, cur, depth = [], '', 0
    for line in out.splitlines():
        if not cur and not line.startswith('<<'):
            continue
        cur += (' ' if cur else '') + line.strip()
        s = re.sub(r'"(\\.|[^"\\])*"', '""', cur)
        if s.count('<<') == s.count('>>'):
            res.append(cur)
            cur = ''
        elif len(cur) > 200000:
            cur = ''
    return res


class ToolError(Exception):
    pass


def check_traces(cases, work, module='WasmTrace.tla', cfg='WasmTrace.cfg', shards=8, heap='3g', timeout=None, env=None, verdicts=('ok', 'trap', 'undet')):
    """cases: list of dicts with unique 'id'. Returns (verdict per id, detail per id, states, transitions)."""
    os.makedirs(work, exist_ok=True)
    n = max(1, min(shards, len(cases)))
    # balance by size of the text
    texts = sorted(((json.dumps(c, separators=(',', ':')), c['id']) for c in cases), key=lambda t: -len(t[0]))
    bins = [[0, []] for _ in range(n)]
    for t, i in texts:
        b = min(bins, key=lambda b: b[0])
        b[0] += len(t) + 2000
        b[1].append(t)

    def one(k):
        f = os.path.join(work, 'cases%d.ndjson' % k)
        with open(f, 'w') as o:
            o.write('\n'.join(bins[k][1]) + '\n')
        rc, out = tlc(module, cfg, os.path.join(work, 'tlc%d' % k), dict(env or {}, CASES=f), 1, heap, timeout=timeout)
        return rc, out

    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    verd, det, st, tr = {}, {}, 0, 0
    ids = {c['id'] for c in cases}
    for k, (rc, out) in enumerate(rs):
        for t in tuples(out):
            m = re.match(r'<<\s*"([a-z]+)",\s*"([^"]*)"', t)
            if not m or m.group(2) not in ids:
                continue
            if m.group(1) == 'mismatch':
                det.setdefault(m.group(2), t)
            else:
                verd[m.group(2)] = m.group(1)
        a, b = states(out)
        tr += a
        st += b
        if rc not in (0,) and 'Error:' in out:
            with open(os.path.join(work, 'tlc%d.out' % k), 'w') as o:
                o.write(out)
            err = out[out.index('Error:'):][:1500]
            raise ToolError('TLC failed on shard %d: %s' % (k, err))
        if rc != 0:
            raise ToolError('TLC exit %d on shard %d: %s' % (rc, k, out[-800:]))
    miss = ids - set(verd)
    if miss:
        raise ToolError('no verdict for %d cases, e.g. %s' % (len(miss), sorted(miss)[:3]))
    return verd, det, st, tr
