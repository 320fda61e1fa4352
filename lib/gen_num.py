"""Directed programs for the numeric instructions: every operation, with its operands in every kind of place the code
generator distinguishes (constant, parameter slot, saved-register local, fresh register, memory cell, deep operand stack)
and with every kind of consumer (return, local, store, condition)."""
import random, struct
from wasm import *

I, J, F, D = 'i', 'I', 'f', 'F'
BIN = {}
UN = {}
for o in range(0x6a, 0x79):
    BIN[o] = (I, I)
for o in range(0x7c, 0x8b):
    BIN[o] = (J, J)
for o in range(0x46, 0x50):
    BIN[o] = (I, I)
for o in range(0x51, 0x5b):
    BIN[o] = (J, I)
for o in range(0x92, 0x99):
    BIN[o] = (F, F)
for o in range(0xa0, 0xa7):
    BIN[o] = (D, D)
for o in range(0x5b, 0x61):
    BIN[o] = (F, I)
for o in range(0x61, 0x67):
    BIN[o] = (D, I)
for o in (0x45,):
    UN[o] = (I, I)
UN[0x50] = (J, I)
for o in (0x67, 0x68, 0x69, 0xc0, 0xc1):
    UN[o] = (I, I)
for o in (0x79, 0x7a, 0x7b, 0xc2, 0xc3, 0xc4):
    UN[o] = (J, J)
for o in range(0x8b, 0x92):
    UN[o] = (F, F)
for o in range(0x99, 0xa0):
    UN[o] = (D, D)
UN.update({0xa7: (J, I), 0xac: (I, J), 0xad: (I, J),
           0xa8: (F, I), 0xa9: (F, I), 0xaa: (D, I), 0xab: (D, I), 0xae: (F, J), 0xaf: (F, J), 0xb0: (D, J), 0xb1: (D, J),
           0xb2: (I, F), 0xb3: (I, F), 0xb4: (J, F), 0xb5: (J, F), 0xb6: (D, F),
           0xb7: (I, D), 0xb8: (I, D), 0xb9: (J, D), 0xba: (J, D), 0xbb: (F, D),
           0xbc: (F, I), 0xbd: (D, J), 0xbe: (I, F), 0xbf: (J, D)})
for k, (a, b) in enumerate([(F, I), (F, I), (D, I), (D, I), (F, J), (F, J), (D, J), (D, J)]):
    UN[FC + k] = (a, b)

INT_OPS = [o for o in list(BIN) + list(UN) if (BIN.get(o) or UN.get(o))[0] in 'iI' and (BIN.get(o) or UN.get(o))[1] in 'iI' and o not in (0xa7, 0xac, 0xad)]
FLT_OPS = [o for o in list(BIN) + list(UN) if (BIN.get(o) or UN.get(o))[0] in 'fF' and ((BIN.get(o) or UN.get(o))[1] == (BIN.get(o) or UN.get(o))[0] or 0x5b <= o <= 0x66)]
CONV_OPS = [o for o in UN if o >= 0xa7 and o not in (0xc0, 0xc1, 0xc2, 0xc3, 0xc4)]
CMP = [o for o in list(BIN) + list(UN) if 0x45 <= o <= 0x66]


def pk(t, v):
    return struct.pack({'i': '<I', 'I': '<Q', 'f': '<I', 'F': '<Q'}[t], v & ((1 << 32) - 1 if t in 'if' else (1 << 64) - 1))


def ival(rnd, t):
    n = 32 if t == 'i' else 64
    k = rnd.random()
    if k < 0.35:
        return pk(t, rnd.choice([0, 1, 2, -1, -2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000,
                                 0xffff, 0x10000, n - 1, n, n + 1, 0x80808080, 0xffffffff, 0x100000000, 0x80000000, 0x7fffffff, 0xffffffff00000000]))
    if k < 0.55:
        return pk(t, (1 << rnd.randrange(n)) + rnd.choice([-1, 0, 0, 1]))
    if k < 0.7:
        return pk(t, rnd.randint(-300, 300))
    if k < 0.85:
        return pk(t, rnd.getrandbits(rnd.randint(1, n)))
    return pk(t, rnd.getrandbits(n))


def fval(rnd, t, nan=True):
    n, mb, eb = (32, 23, 8) if t == 'f' else (64, 52, 11)
    bias = (1 << (eb - 1)) - 1
    k = rnd.random()
    s = rnd.getrandbits(1) << (n - 1)
    if k < 0.12:
        return pk(t, s)
    if k < 0.20:
        return pk(t, s | (((1 << eb) - 1) << mb))
    if k < 0.26 and nan:
        return pk(t, s | (((1 << eb) - 1) << mb) | (1 << (mb - 1)))
    if k < 0.34:      # subnormal
        return pk(t, s | rnd.getrandbits(rnd.randint(1, mb)))
    if k < 0.40:
        return pk(t, s | rnd.choice([1 << mb, (1 << mb) - 1, 1, ((1 << eb) - 2 << mb) | ((1 << mb) - 1), (bias << mb), (bias << mb) + 1, (bias << mb) - 1]))
    if k < 0.65:      # small half-integers and neighbours
        v = rnd.choice([0.5, 1.5, 2.5, 0.25, 0.75, 1.0, 2.0, 3.0, 0.1, 100.5, 255.5, 1e6 + 0.5, 8388607.5, 8388608.0, 4503599627370495.5, 3.7])
        v *= rnd.choice([1, -1])
        b = struct.unpack('<I', struct.pack('<f', v))[0] if t == 'f' else struct.unpack('<Q', struct.pack('<d', v))[0]
        return pk(t, b + rnd.choice([0, 0, 0, 1, -1]))
    if k < 0.85:
        e = bias + rnd.randint(-70, 70)
        return pk(t, s | (e << mb) | rnd.getrandbits(mb))
    return pk(t, s | (rnd.randint(1, (1 << eb) - 2) << mb) | rnd.getrandbits(mb))


def cval(rnd, op, t):
    """operands of conversions: mostly in the range of the target type"""
    if t in 'iI':
        return ival(rnd, t)
    k = op - FC if op >= FC else None
    tgt = UN[op][1]
    if tgt in 'fF':
        return fval(rnd, t, nan=op in (0xb6, 0xbb))
    nb = 32 if tgt == 'i' else 64
    uns = op in (0xa9, 0xab, 0xaf, 0xb1) or (k is not None and k & 1)
    hi = (1 << nb) - 1 if uns else (1 << (nb - 1)) - 1
    lo = 0 if uns else -(1 << (nb - 1))
    if rnd.random() < 0.4:
        v = rnd.choice([lo, hi, hi // 2, hi // 2 + 1, lo + 1, 0, 1, -1 if not uns else 1]) + rnd.choice([0, 0, 0.5, -0.5])
    else:
        v = rnd.uniform(-1, 1) * 2.0 ** rnd.randint(0, nb)
        if uns:
            v = abs(v)
    v = float(v)
    def enc(x):
        return struct.pack('<f', x) if t == 'f' else struct.pack('<d', x)
    for _ in range(80):
        b = enc(v)
        r = struct.unpack('<f', b)[0] if t == 'f' else v
        if lo <= int(r) <= hi:
            return b
        v = v / 2
    return enc(0.0)


def near(rnd, t, a, b):
    """the second operand, often one with something to do with the first"""
    k = rnd.random()
    if k < 0.13:
        return a
    if t in 'fF':
        n = 32 if t == 'f' else 64
        v = int.from_bytes(a, 'little')
        if k < 0.25:
            return pk(t, v ^ (1 << (n - 1)))
        if k < 0.31:
            return pk(t, v + rnd.choice([-1, 1]))
        if k < 0.34:
            return pk(t, (v + rnd.choice([-1, 0, 1])) ^ (1 << (n - 1)))
    elif k < 0.2:
        return pk(t, int.from_bytes(a, 'little') + rnd.choice([-1, 1]))
    return b


def between(rnd, tgt):
    """an integer in the middle of two floats, or just beside it"""
    p = 24 if tgt == 'f' else 53
    e = rnd.randint(1, 64 - p)
    v = ((1 << (p - 1)) | rnd.getrandbits(p - 1)) << e
    v += (1 << (e - 1)) + rnd.choice([-1, 0, 1, 1])
    return pk('I', v if rnd.random() < 0.6 else -v)


def val(rnd, t, op=None):
    if op is not None and op in UN and t == 'I' and UN[op][1] in 'fF' and rnd.random() < 0.3:
        return between(rnd, UN[op][1])
    if op is not None and op in UN and t == 'i' and UN[op][1] == 'f' and rnd.random() < 0.2:
        return between(rnd, 'f')[:4] if rnd.random() < 0.5 else pk('i', int.from_bytes(between(rnd, 'f'), 'little') >> rnd.randint(25, 39))
    if op is not None and op in UN and UN[op][0] in 'fF' and UN[op][1] in 'iI':
        return cval(rnd, op, t)
    return ival(rnd, t) if t in 'iI' else fval(rnd, t)


LOADOP = {'i': 40, 'I': 41, 'f': 42, 'F': 43}
STOREOP = {'i': 54, 'I': 55, 'f': 56, 'F': 57}


def ident(t, k):
    """an instruction sequence that leaves the top of stack unchanged but moves it to a fresh register"""
    if t == 'i':
        return [[i32(0), (0x6a,)], [i32(0), (0x73,)], [i32(1), (0x6c,)]][k % 3]
    if t == 'I':
        return [[i64(0), (0x7c,)], [i64(0), (0x85,)], [i64(1), (0x7e,)]][k % 3]
    if t == 'f':
        return [[(0x8c,), (0x8c,)], [f32(1.0), (0x94,)], [(0xbc,), (0xbe,)]][0]
    return [[(0x9a,), (0x9a,)], [f64(1.0), (0xa2,)], [(0xbd,), (0xbf,)]][0]


# operand places
PLACES = ['P', 'S', 'R', 'M', 'C', 'X']
CONS = ['ret', 'local', 'store', 'twice', 'cond', 'deep']


def build(rnd, op, pa, pb, cons, consts):
    """one function applying op; returns (params, results, locals, body)"""
    bin_ = op in BIN
    ta, tr = BIN[op] if bin_ else UN[op]
    ts = [ta, ta] if bin_ else [ta]
    params = ''.join(ts)
    locs, pre, body = '', [], []
    n = len(ts)
    for k in range(n):
        if (pa, pb)[k] == 'S':
            pre += [(32, k), (33, n + len(locs))]
            locs += ts[k]
    sidx = n
    for k in range(n):
        if (pa, pb)[k] == 'M':
            pre += [i32(64 + 16 * k), (32, k), (STOREOP[ts[k]], 0, 0)]
    deep = []
    if cons == 'deep':      # fill registers with live values below
        for k in range(rnd.randint(5, 9)):
            t = rnd.choice('iIfF')
            deep.append(t)
            body += [const(t, val(rnd, t) if t in 'iI' else (struct.pack('<f', k + 1.0) if t == 'f' else struct.pack('<d', k + 0.5)))] + ident(t, k)
    for k in range(n):
        p = (pa, pb)[k]
        if p == 'P':
            body += [(32, k)]
        elif p == 'S':
            body += [(32, sidx)]
            sidx += 1
        elif p == 'R':
            body += [(32, k)] + ident(ts[k], rnd.randrange(3))
        elif p == 'M':
            body += [i32(64 + 16 * k), (LOADOP[ts[k]], 0, 0)]
        elif p == 'C':
            body += [const(ts[k], consts[k])]
        elif p == 'X':      # result of a block: value in its stack slot
            body += [('block', ts[k], [(32, k)])]
    body += [(op,)]
    res = tr
    if cons == 'local':
        l = n + len(locs)
        locs += tr
        body += [(33, l), (32, l)]
    elif cons == 'twice':
        l = n + len(locs)
        locs += tr
        body += [(34, l), (32, l)]
        res = tr + tr
    elif cons == 'store':
        l = n + len(locs)
        body = pre + [i32(128)] + body + [(STOREOP[tr], 0, 4), i32(132), (LOADOP[tr], 0, 0)]
        pre = []
    elif cons == 'cond':
        if tr != 'i':
            body += [('block', tr, [])] if False else []
            return None
        k = rnd.randrange(4)
        if k == 0:
            body += [('if', 'I', [i64(11)], [i64(22)])]
        elif k == 1:
            body = [i64(11), i64(22)] + body + [(27,)]
        elif k == 2:
            body = [('block', 'I', [i64(33)] + body + [(13, 0), (26,), i64(44)])]
        else:
            body += [(0x45,), (0x45,), ('if', 'I', [i64(11)], [i64(22)])]
        res = 'I'
    elif cons == 'deep':
        res = tr
        l = n + len(locs)
        locs += tr
        body += [(33, l)]
        # consume what lies below in order, so that each is checked
        res = ''.join(deep) + tr
        body += [(32, l)]
    return params, res, locs, pre + body


def cases(rnd, ops, ncases, fns, calls, prefix):
    out = []
    ops = list(ops)
    pool = []
    for c in range(ncases):
        m = Module()
        m.mems = [(1, 1)]
        cs = Case('%s%d' % (prefix, c))
        plan = []
        while len(plan) < fns:
            if not pool:
                pool = list(ops)
                rnd.shuffle(pool)
            op = pool.pop()
            for _ in range(1):
                pa, pb = rnd.choice(PLACES), rnd.choice(PLACES)
                t = (BIN.get(op) or UN.get(op))[0]
                isb = op in BIN
                pre = val(rnd, t, op), val(rnd, t, op)
                pre = pre[0], near(rnd, t, *pre) if isb else pre[1]
                if (op in (0x6d, 0x6f, 0x7f, 0x81)) and pre[1] in (pk(t, 0), pk(t, -1)):
                    pre = (pre[0], pk(t, 3))
                if (op in (0x6e, 0x70, 0x80, 0x82)) and pre[1] == pk(t, 0):
                    pre = (pre[0], pk(t, 7))
                b = None
                while b is None:
                    b = build(rnd, op, pa, pb, rnd.choice(CONS), pre)
                p, r, l, body = b
                f = m.fn(p, r, l, body)
                m.exports.append(('f%d' % f, 0, f))
                plan.append((f, op, t, isb, pre, pa, pb))
        k = cs.module(m)
        i = cs.load(k)
        for f, op, t, isb, pre, pa, pb in plan:
            nc = 1 if pa == 'C' and (not isb or pb == 'C') else calls
            for _ in range(nc):
                a, b = val(rnd, t, op), val(rnd, t, op)
                if isb:
                    b = near(rnd, t, a, b)
                if pa == 'C':
                    a = pre[0]
                if pb == 'C':
                    b = pre[1]
                if op in (0x6d, 0x6e, 0x6f, 0x70, 0x7f, 0x80, 0x81, 0x82):
                    n = 32 if t == 'i' else 64
                    if b == pk(t, 0):
                        b = pk(t, rnd.choice([1, 3, 255, 1 << (n - 1)]))
                    if op in (0x6d, 0x7f) and a == pk(t, 1 << (n - 1)) and b == pk(t, -1):
                        a = pk(t, rnd.getrandbits(n - 1))
                    if op in (0x6f, 0x81) and a == pk(t, 1 << (n - 1)) and b == pk(t, -1) and rnd.random() < 0:
                        a = pk(t, 5)
                cs.call(i, f, [hx(a), hx(b)][:2 if isb else 1])
        out.append(cs)
    return out
