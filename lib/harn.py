"""The frame of every check: budget, verdicts, replay files, known findings, evidence."""
import json, os, random, re, sys, time
import build, run, tlc

VERIF = build.VERIF


class Stop(Exception):
    """enough has been seen (a violation was confirmed, or time is up)"""


class Ctx:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.limit = float(os.environ.get('VERIF_LIMIT', '240' if self.quick else '700'))
        self.rnd = random.Random('%s-%s' % (prop, seed))
        self.work = build.scratch('vf-' + prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.counts, self.notes, self.models = [], {}, [], []
        self.bad = []            # (key, text, replay path)
        self.known_hit = []
        self.seen = set()
        self.exes = {}
        self.known = load_known(prop)
        self.round = 0
        self.assumptions = []
        self.selftests = 0

    # ---- time
    def left(self):
        return self.limit - (time.time() - self.t0)

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def exe(self, name, fn):
        if name not in self.exes:
            self.exes[name] = fn()
        return self.exes[name]

    def wrun(self):
        return self.exe('wrun', lambda: build.wrun(self.work))

    # ---- results
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def add_model(self, name, states, transitions, exhaustive=True):
        self.states += states
        self.transitions += transitions
        self.models.append({'model': name, 'distinct_states': states, 'states_generated': transitions, 'exhaustive': exhaustive})

    def violation(self, key, text, replay):
        """a confirmed disagreement between the real code and the specification"""
        if key in self.seen:
            return
        self.seen.add(key)
        for k, t in self.known:
            if k == key:
                self.known_hit.append((key, t))
                print('KNOWN-FINDING: property=%s %s' % (self.prop, t))
                return
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.bad) + 1))
        replay = dict(replay, property=self.prop, text=text, key=key)
        with open(path, 'w') as f:
            json.dump(replay, f)
        self.bad.append((key, text, path))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  ' + text[:700])
        sys.stdout.flush()
        if len(self.bad) >= 3:
            raise Stop()

    # ---- wasm traces
    def wasm(self, cases, label, exe=None):
        """run scripted modules on the real code and check every recorded trace against Wasm.tla"""
        if not cases:
            return
        exe = exe or self.wrun()
        work = self.sub('w')
        real = run.execute(exe, cases, work)
        selft = corrupt(real, self.rnd)
        v, det, st, tr = tlc.check_traces(real + selft, work, timeout=max(120, self.left() + 240))
        self.states += st
        self.transitions += tr
        bad = []
        for c in real:
            self.count(label + ':' + v[c['id']])
            self.count('events', len(c['ev']))
            if v[c['id']] == 'bad':
                bad.append(c)
            else:
                self.traces += 1
        for c in selft:
            o = c['id'][len('selftest-'):]
            if v[o] == 'ok':
                if v[c['id']] != 'bad':
                    raise tlc.ToolError('self test: the specification accepted a corrupted trace of case %s' % o)
                self.selftests += 1
        by = {c.id: c for c in cases}
        good = [c for c in real if v[c['id']] == 'ok']
        if good:
            c = min(good, key=lambda c: abs(len(json.dumps(c)) - 1500))
            if len(json.dumps(c)) < 6000:
                self.sample({'case': c['id'], 'label': label, 'trace': c})
        bad.sort(key=lambda c: len(json.dumps(c)))
        for c in bad[:6]:
            # run it again: only a disagreement that repeats is reported
            again = run.execute(exe, [by[c['id']]], self.sub('again'))
            v2, det2, _, _ = tlc.check_traces(again, self.sub('again'), shards=1)
            if v2[c['id']] == 'bad':
                d = det2.get(c['id'], '')
                m = re.match(r'<<\s*"mismatch",\s*"[^"]*",\s*(\d+),\s*"([^"]*)",?\s*(.*)>>$', d, re.S)
                what, spec, l = (m.group(2), m.group(3), int(m.group(1))) if m else ('?', d, 0)
                e = again[0]['ev'][l - 1] if 0 < l <= len(again[0]['ev']) else None
                key = key_of(c, what, e)
                self.violation(key, '%s case %s: %s: real %s, specification %s' % (label, c['id'], what, json.dumps(e)[:250], spec[:250]),
                               {'kind': 'wasm', 'script': by[c['id']].script(), 'mods': again[0]['mods'], 'real': again[0]['ev'],
                                'tmpl': by[c['id']].tmpl, 'mismatch': d})
            else:
                self.count('not confirmed')
                self.notes.append('case %s of %s: a disagreement did not repeat' % (c['id'], label))

    def rounds(self, fn):
        """quick: one round; thorough: rounds with fresh inputs until the time is used"""
        k = 0
        while True:
            t = time.time()
            fn(k)
            k += 1
            self.round = k
            if self.quick or self.left() < 1.3 * (time.time() - t) + 5:
                return

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples or [{'note': 'none kept'}], 'verdicts': self.counts, 'rounds': self.round,
               'corrupted_traces_rejected': self.selftests}
        if self.models:
            cov['models'] = self.models
        if self.notes:
            cov['notes'] = self.notes[:20]
        if self.known_hit:
            cov['known_findings'] = [k for k, _ in self.known_hit]
        e = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
             'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.bad)}
        if self.assumptions:
            e['assumptions'] = self.assumptions
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
        return 1 if self.bad else 0


def key_of(c, what, e):
    """identifies a failing history independently of the generated case number"""
    return '%s|%s' % (c['id'], what)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def isnan(b):
    if len(b) == 4:
        return b[3] & 0x7f == 0x7f and b[2] & 0x80
    if len(b) == 8:
        return b[7] & 0x7f == 0x7f and b[6] & 0xf0 == 0xf0
    return False


def corrupt(real, rnd, n=2):
    """copies of recorded traces with one flipped bit in a result: the specification has to reject them"""
    out = []
    cand = list(real)
    rnd.shuffle(cand)
    for c in cand:
        if len(out) == n:
            break
        c2 = json.loads(json.dumps(c))
        spots = [v for e in c2['ev'] if e['e'] in ('ret', 'glob') for v in (e['r'] if e['e'] == 'ret' else [e['v']])
                 if len(v) in (4, 8) and not isnan(v)]
        if not spots:
            continue
        rnd.choice(spots)[0] ^= 1
        c2['id'] = 'selftest-' + c['id']
        out.append(c2)
    return out


def main(props, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    ctx = Ctx(a.prop, a.tier, a.seed)
    if a.replay:
        return replay(ctx, json.load(open(a.replay)), props)
    try:
        props[a.prop](ctx)
    except Stop:
        pass
    except build.BuildError as e:
        print('BUILD ERROR', e)
        ctx.finish()
        return 1 if ctx.bad else 2
    except tlc.ToolError as e:
        print('TOOL ERROR', e)
        ctx.finish()
        return 1 if ctx.bad else 2
    r = ctx.finish()
    print('%s %s seed %d: %d violations, %d states, %d traces, %.1fs %s' % (
        a.prop, a.tier, a.seed, len(ctx.bad), ctx.states, ctx.traces, time.time() - ctx.t0, json.dumps(ctx.counts)))
    return r


def replay(ctx, r, props):
    """run a recorded violation again and say whether it still happens"""
    if r.get('kind') == 'wasm':
        class C:
            pass
        import wasm
        c = wasm.Case(re.match(r'CASE (\S+)', r['script']).group(1))
        c.lines = r['script'].split('\n')[1:-2]
        c.tmpl = [tuple(t) for t in r['tmpl']]
        res = run.execute(ctx.wrun(), [c], ctx.work)
        res[0]['mods'] = r['mods']
        v, det, _, _ = tlc.check_traces(res, ctx.work, shards=1)
        print(v, det)
        return 1 if v[c.id] == 'bad' else 0
    if r.get('kind') == 'lir':
        import lir
        return lir.replay(ctx, r)
    if r.get('kind') == 'simd':
        import gen_simd
        return gen_simd.replay(ctx, r)
    if r.get('kind') == 'err':
        import gen_err
        return gen_err.replay(ctx, r)
    if r.get('kind') == 'ea':
        import gen_mem
        return gen_mem.replay(ctx, r)
    if r.get('kind') == 'rx':
        import gen_rx
        return gen_rx.replay(ctx, r)
    if r.get('kind') == 'beh':
        import beh, props as P
        return beh.again(ctx, r, *P.harness(ctx, r['harness']))
    print('unknown kind of replay')
    return 2
