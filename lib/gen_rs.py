"""Histories of RStack.tla and HostApi.tla as scripts for harness/rsrun.c."""
import os, struct, random
import build
from wasm import *

RS = """CONSTANTS
 Types = {%(types)s}
 Cfgs = {0, 1}
 Bases = {%(bases)s}
 Depth = %(depth)d
 Mode = "%(mode)s"
SPECIFICATION Spec
INVARIANTS RoundTrip SlotsOk %(emit)s
"""
HA = """CONSTANTS
 Depth = %(depth)d
 NSlots = %(slots)d
SPECIFICATION Spec
INVARIANTS NoDangling EmitLong
"""
SPECIAL = {'i': [0, 1, 0x7fffffff, 0x80000000, 0xffffffff], 'I': [0, 1, 1 << 63, (1 << 64) - 1, 0xffffffff, 1 << 32, 0x80000000],
           'f': [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0x7fc12345, 1], 'F': [0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (0x7ff << 52) + 1, 1],
           'r': [0, 1, (1 << 64) - 1, 0x7fffffffffff]}


def exe(work, name='rsrun', flags=()):
    return build.compile(os.path.join(work, name), [build.REPO + '/pwart/pwart.c', build.REPO + '/sljit/sljit_src/sljitLir.c',
                                                    build.VERIF + '/harness/rsrun.c'], ['-I' + build.VERIF + '/harness'] + list(flags), ['-lm', '-lpthread', '-ldl'])


def value(rnd, t):
    w = 4 if t in 'if' else 8
    x = rnd.choice(SPECIAL[t]) if rnd.random() < 0.4 else rnd.getrandbits(8 * w)
    return struct.pack('<I' if w == 4 else '<Q', x)


def perm(ts, rev):
    m = Module()
    n = len(ts)
    q = list(reversed(range(n))) if rev else list(range(n))
    f = m.fn(''.join(ts), ''.join(ts[k] for k in q), '', [(32, k) for k in q])
    m.exports.append(('f', 0, f))
    return m.encode().hex()


def case(cid, hist, rnd):
    lines, exp, val = [], [], {}
    for h in hist:
        o, a = h['o'], h['a']
        r = []
        if o == 'start':
            lines.append('START %d %d' % (a[0], h['sp']))
        elif o == 'put':
            val[a[1]] = value(rnd, a[0])
            lines.append('PUT %s %s' % (a[0], val[a[1]].hex()))
        elif o == 'get':
            lines.append('GET ' + a[0])
            r = [val[t][k] for t, k in h['r']]
        elif o == 'seek':
            lines.append('SEEK %d' % a[0])
        elif o == 'cfg':
            lines.append('CFG %d' % a[0])
        elif o == 'call':
            lines.append('CALL %d %s' % (h['sp'], perm(a[1], a[0])))
        exp.append({'sp': h['sp'], 'r': r})
    return cid, lines, exp


def hacase(cid, hist):
    lines, exp = [], []
    for h in hist:
        o, a = h['o'], h['a']
        x = ' '.join(str(v) for v in a)
        if o == 'load':
            m = Module()
            if a[1]:
                m.imports.append(('env', 'w', 0, m.type('i', '')))
            f = m.fn('i', '', '', [(32, 0), (16, 0)] if a[1] else [])
            m.exports.append(('f', 0, f))
            x += ' ' + m.encode().hex()
        lines.append(o + ' ' + x)
        exp.append(h['r'])
    return cid, lines, exp
