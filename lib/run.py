"""Running scripted wasm cases on the real code and judging them with the specification."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import tlc


def execute(exe, cases, work, shards=8, env=None, timeout=600):
    """run the scripts on the real code: list of merged cases"""
    os.makedirs(work, exist_ok=True)
    n = max(1, min(shards, len(cases)))

    def one(k):
        part = cases[k::n]
        f = os.path.join(work, 'script%d.txt' % k)
        with open(f, 'w') as o:
            for c in part:
                o.write(c.script())
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        byid, cur = {}, None
        for line in p.stdout.decode(errors='replace').splitlines():
            if line.startswith('CASE '):
                cur = byid.setdefault(line[5:], [])
            elif line.strip():
                try:
                    cur.append(json.loads(line))
                except ValueError:
                    cur.append({'e': 'garbled'})
        if any({'e': 'harness'} in v for v in byid.values()):
            raise RuntimeError('harness: ' + p.stderr.decode(errors='replace')[-500:])
        res = []
        for c in part:
            if c.id not in byid:
                raise RuntimeError('harness produced nothing for %s: %s' % (c.id, p.stderr[-500:]))
            res.append(c.merge(byid[c.id]))
        return res

    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    return [x for r in rs for x in r]
