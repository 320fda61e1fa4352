"""Histories of Namespace.tla as scripts for harness/nsrun.c."""
import os
import build
from wasm import *

CFG = """CONSTANTS
 K = %(K)d
 NameSeq <- N%(n)d
 Hosts = {%(hosts)s}
 Ways = {%(ways)s}
 Depth = %(depth)d
 MaxInst = %(maxi)d
 Rand = %(rand)s
SPECIFICATION Spec
INVARIANTS LastWins Balance OneName
"""
NAMES = {2: ['A', 'B'], 3: ['A', 'B', 'META'], 7: ['A', 'B', 'C', 'D', 'E', 'F', 'META'],
         18: ['A', 'B'] + ['P%d' % k for k in range(1, 9)] + ['Q%d' % k for k in range(1, 8)] + ['META']}
REAL = {'META': 'pwart_namespace_meta', 'A': 'm', 'B': 'mm', 'C': '', 'D': 'x' * 300 + 'a', 'E': 'x' * 300 + 'b', 'F': 'M', 'G': 'm ', 'I': 'pwart_builtin', 'J': 'env\u00e9'}
REAL.update({c + str(k): 'sub/%s%d' % (c, k) for c in 'PQ' for k in range(1, 9)})


def exe(work, name='nsrun', flags=()):
    return build.compile(os.path.join(work, name), [build.REPO + '/pwart/pwart.c', build.REPO + '/sljit/sljit_src/sljitLir.c',
                                                       build.VERIF + '/harness/nsrun.c'], ['-I' + build.VERIF + '/harness'] + list(flags), ['-lm', '-lpthread', '-ldl'])


def binary(kind, fr, i):
    m = Module()
    if kind == 'bad':
        m.fn('', 'i', '', [i32(1)])
        return m.encode()[:-3]
    if kind == 'c':
        f = m.fn('', 'i', '', [i32(10 * i)])
        m.globs.append(('i', True, [i32(7 + i)]))
    elif kind == 'f':
        m.imports.append((REAL[fr], 'f', 0, m.type('', 'i')))
        f = m.fn('', 'i', '', [(16, 0), i32(1000), (0x6a,)])
        m.globs.append(('i', True, [i32(7 + i)]))
    else:
        m.imports.append((REAL[fr], 'g', 3, ('i', True)))
        f = m.fn('', 'i', '', [(35, 0)])
    m.exports += [('f', 0, f), ('g', 3, 0)]
    return m.encode()


def nm(n):
    return 'x' + REAL[n].encode().hex()


def case(cid, k, names, hist):
    lines = ['NS %d' % k, 'NAMES ' + ' '.join(nm(n) for n in names)]
    exp = []
    for h in hist:
        fl = ''.join(str((1 if e[2] >= 0 else 0) + (2 if e[3] >= 0 else 0)) for s in h['snap'] for e in s) or '-'
        o, n = h['o'], nm(h['n']) if h['n'] else ''
        if o == 'dh':
            lines.append('DH %d %s %d %d %s' % (h['k'], n, h['a'][0], h['w'], fl))
        elif o == 'dw':
            b = binary(h['a'][0], h['a'][1], h['a'][2])
            lines.append('DW %d %s %d %s %s' % (h['k'], n, h['w'], b.hex(), fl))
        elif o == 'rm':
            lines.append('RM %d %s %s' % (h['k'], n, fl))
        elif o == 'del':
            lines.append('DEL %d %s' % (h['k'], fl))
        elif o == 'sg':
            lines.append('SG %d %s %d %s' % (h['k'], n, h['a'][0], fl))
        exp.append({'ok': h['ok'], 'cb': h['cb'], 'snap': h['snap']})
    return cid, lines, exp


def same(a, b):
    return isinstance(b, dict) and set(a) == set(b) and a['ok'] == b['ok'] and sorted(a['cb']) == sorted(b['cb']) and a['snap'] == b['snap']
