"""Histories of Builtins.tla as scripts for harness/birun.c."""
import os
import build
from wasm import *

CFG = """CONSTANT Depth = %(depth)d
SPECIFICATION Spec
INVARIANTS Truthful Distinct EmitLong
"""
SIG = {'version': ('', 'i'), 'memory_alloc': ('i', 'I'), 'memory_free': ('I', ''), 'native_index_size': ('', 'i'),
       'load_module': ('rrri', 'r'), 'unload_module': ('rr', 'r'), 'import': ('rrri', 'r'), 'get_self_runtime_context': ('', 'r'),
       'ref_from_index': ('ii', 'r'), 'ref_copy_bytes': ('rri', ''), 'ref_string_length': ('r', 'i'), 'ref_from_i64': ('I', 'r'),
       'i64_from_ref': ('r', 'I'), 'host_definition': ('i', 'r'), 'fopen': ('rr', 'ri'), 'fread': ('riir', 'i'), 'fwrite': ('riir', 'i'),
       'fclose': ('r', 'i'), 'stdio': ('', 'rrr')}


def exe(work, name='birun', flags=()):
    return build.compile(os.path.join(work, name), [build.REPO + '/pwart/pwart.c', build.REPO + '/sljit/sljit_src/sljitLir.c',
                                                    build.VERIF + '/harness/birun.c'], ['-I' + build.VERIF + '/harness'] + list(flags), ['-lm', '-lpthread', '-ldl'])


def main_module():
    m = Module()
    ix = {}
    for n, (p, r) in SIG.items():
        if n == 'ref_from_index':
            continue
        ix[n] = len(m.imports)
        m.imports.append(('pwart_builtin', n, 0, m.type(p, r)))
    ix['rfi'] = len(m.imports)
    m.imports.append(('pwart_builtin', 'ref_from_index', 0, m.type('ii', 'r')))
    ix['rfi64'] = len(m.imports)
    m.imports.append(('pwart_builtin', 'ref_from_index', 0, m.type('iI', 'r')))
    m.imports.append(('pwart_builtin', 'native_memory', 2, (1, None)))
    m.mems = [(2, None), (1, 3)]
    m.tables = [(4, 4), (32, 32)]

    slot = {}

    def wrap(name, p, r, core):
        """core: instructions that take the parameters as locals and leave the results"""
        f = m.fn(p, r, '', core)
        m.exports.append((name, 0, f))
        # two values wait on the operand stack while it runs
        n = len(p)
        loc = ''.join(r)
        body = [(32, n), (32, n + 1)] + core
        body += [(33, n + 2 + k) for k in reversed(range(len(r)))]
        body += [(33, n + 2 + len(r)), (33, n + 3 + len(r))]
        body += [(32, n + 2 + k) for k in range(len(r))] + [(32, n + 3 + len(r)), (32, n + 2 + len(r))]
        f = m.fn(p + 'iF', r + 'iF', loc + 'Fi', body)
        m.exports.append((name + '_p', 0, f))
        # called through a table, as a tail call, and as a tail call through a table
        b = core[-1][1] if core[-1][0] == 16 else None
        if b is not None:
            m.exports.append((name + '_t', 0, m.fn(p, r, '', core[:-1] + [(18, b)])))
            if name in SIG and name != 'get_self_runtime_context':
                slot[b] = len(slot)
                m.exports.append((name + '_i', 0, m.fn(p, r, '', core[:-1] + [i32(slot[b]), (17, m.type(p, r), 1)])))
                m.exports.append((name + '_ti', 0, m.fn(p, r, '', core[:-1] + [i32(slot[b]), (19, m.type(p, r), 1)])))
    for n, (p, r) in SIG.items():
        if n != 'ref_from_index':
            wrap(n, p, r, [(32, k) for k in range(len(p))] + [(16, ix[n])])
    wrap('ref_m0', 'i', 'r', [i32(1), (32, 0), (16, ix['rfi'])])
    wrap('ref_m1', 'i', 'r', [i32(2), (32, 0), (16, ix['rfi'])])
    wrap('ref_nat', 'I', 'r', [i32(0), (32, 0), (16, ix['rfi64'])])
    wrap('callref', 'r', 'i', [i32(1), (32, 0), (38, 0), i32(1), (17, m.type('', 'i'), 0)])
    for k, mem in (('n', 0), ('0', 1), ('1', 2)):
        a = 'I' if k == 'n' else 'i'
        for w, st, ld, t in ((1, 58, 45, 'i'), (2, 59, 47, 'i'), (4, 54, 40, 'i'), (8, 55, 41, 'I')):
            for o, x in (('', 0), ('o', 16)):
                wrap('st%d_%s%s' % (w, k, o), a + t, '', [(32, 0), (32, 1), (st, mem, x)])
                wrap('ld%d_%s%s' % (w, k, o), a, t, [(32, 0), (ld, mem, x)])
    m.elems.append((2, 1, [i32(0)], [[(0xd2, b)] for b in slot]))
    m.exports += [('m0', 2, 1), ('m1', 2, 2)]
    return m.encode()


MAIN = None


def small(kind, v):
    m = Module()
    if kind == 2:
        m.fn('', 'i', '', [i32(1)])
        m.imports.append(('nowhere', 'x', 0, m.type('', '')))
        return m.encode()
    if kind == 3:
        m.imports.append(('mod1', 'f', 0, m.type('', 'i')))
        f = m.fn('', 'i', '', [(16, 0), i32(7), (0x6a,)])
    elif kind == 0:
        f = m.fn('', 'i', '', [i32(v)])
    else:
        m.globs.append(('i', True, [i32(0)]))
        f = m.fn('', 'i', '', [(35, 0)])
        m.start = m.fn('', '', '', [i32(v), (36, 0)])
    m.exports.append(('f', 0, f))
    return m.encode()


def case(cid, hist, rnd, tmp):
    global MAIN
    MAIN = MAIN or main_module()
    c = rnd.choice([(0, 3), (0, 3), (1, 3), (0, 2), (1, 2)])
    lines = ['CFG %d %d' % c, 'DIR %s/%s' % (tmp, cid), 'MOD 1 ' + MAIN.hex(), 'MOD 2 ' + MAIN.hex()]
    exp = []
    for h in hist:
        o, a = h['o'], h['a']
        var = rnd.randrange(16)
        if o == 'store':
            x = '%d %d %d %s' % (a[0], a[1], a[2], bytes(a[3]).hex())
        elif o == 'cast':
            x = bytes(a[0]).hex()
        elif o == 'loadm':
            x = '%d %d %s' % (a[0], a[1], small(a[1], a[2]).hex())
        elif o == 'import':
            x = '%d %s %d' % (a[0], a[1], 1 if h['r'][1] >= 0 else 0)
        else:
            x = ' '.join(str(v) for v in a)
        lines.append('%s %d %s' % (o, var, x))
        exp.append(h['r'])
    return cid, lines, exp


def same(e, r):
    if not isinstance(r, list) or not isinstance(e, list):
        return False
    if e and isinstance(e[0], str):
        return sorted(e) == sorted(r)
    if len(e) != len(r):
        return False
    for x, y in zip(e, r):
        if isinstance(x, list):
            if not isinstance(y, list) or not same(x, y):
                return False
        elif x != -1 and x != y:
            return False
    return True
