"""Histories of Bindings.tla as scripts for harness/sysrun.c, and the foreign library they call."""
import json, os, subprocess
import build
from wasm import *

CFG = """CONSTANTS Depth = %(depth)d Part = "%(part)s" FfiOn = %(ffi)d
SPECIFICATION Spec
INVARIANTS Exclusive CanGoOn EmitLong
"""
UV = {'uv_version': ('', 'i'), 'uv_dlopen': ('r', 'ri'), 'uv_dlsym': ('rr', 'ri'), 'uv_dlclose': ('r', ''), 'uv_thread_create': ('rI', 'r'),
      'uv_mutex_init': ('', 'r'), 'uv_mutex_destroy': ('r', ''), 'uv_mutex_lock': ('r', ''), 'uv_mutex_unlock': ('r', ''), 'uv_mutex_trylock': ('r', 'i'),
      'uv_cond_init': ('', 'r'), 'uv_cond_destroy': ('r', ''), 'uv_cond_signal': ('r', ''), 'uv_cond_wait': ('rr', '')}
FFI = {'ffi_is_enabled': ('', 'i'), 'ffi_prep_cif': ('riirr', 'i'), 'ffi_prep_cif_var': ('riiirr', 'i'), 'ffi_call': ('rrrr', ''),
       'ffi_default_abi': ('', 'i'), 'ffi_built_in_types': ('', 'rrrrrrrr'), 'ffix_new_cif': ('r', 'ri'), 'ffix_del_cif': ('r', ''),
       'ffix_call': ('rrrr', ''), 'ffi_closure_alloc': ('', 'rr'), 'ffi_closure_free': ('r', ''), 'ffi_prep_closure_loc': ('rrrrr', 'i'),
       'ffix_new_c_callback': ('rrr', 'rri'), 'ffix_del_c_callback': ('r', '')}
CT = {'i': 'unsigned', 'l': 'unsigned long', 'f': 'float', 'd': 'double', 'v': 'void'}


def exe(work, name='sysrun', flags=()):
    on = [] if name.startswith('sysoff') else ['-DPWART_SYSLIB_LIBFFI_ENABLED']
    return build.compile(os.path.join(work, name), [build.REPO + '/pwart/pwart.c', build.REPO + '/sljit/sljit_src/sljitLir.c',
                         build.REPO + '/pwart_syslib/libuv.c', build.REPO + '/pwart_syslib/libffi.c', build.VERIF + '/harness/sysrun.c'],
                         ['-I' + build.VERIF + '/harness'] + on + list(flags), ['-rdynamic', '-luv', '-lffi', '-lm', '-lpthread', '-ldl'])


def module(noffi=False):
    m = Module()
    ix = {}
    for mod, tab in (('libuv', UV), ('libffi', FFI)):
        for n, (p, r) in tab.items():
            if noffi and mod == 'libffi' and n != 'ffi_is_enabled':
                r = ''
            ix[n] = (len(m.imports), p, r)
            m.imports.append((mod, n, 0, m.type(p, r)))
    for n, p in (('onthread', 'iI'), ('onexit', 'i'), ('oncb', 'irrrr'), ('oncbend', 'i')):
        ix[n] = (len(m.imports), p, '')
        m.imports.append(('env', n, 0, m.type(p, '')))

    def wrap(name, p, r, core):
        f = m.fn(p, r, '', core)
        m.exports.append((name, 0, f))
        n = len(p)
        body = [(32, n), (32, n + 1)] + core
        body += [(33, n + 2 + k) for k in reversed(range(len(r)))]
        body += [(33, n + 2 + len(r)), (33, n + 3 + len(r))]
        body += [(32, n + 2 + k) for k in range(len(r))] + [(32, n + 3 + len(r)), (32, n + 2 + len(r))]
        f = m.fn(p + 'iF', r + 'iF', r + 'Fi', body)
        m.exports.append((name + '_p', 0, f))
    for n, (k, p, r) in list(ix.items()):
        if not n.startswith('on'):
            wrap(n, p, r, [(32, j) for j in range(len(p))] + [(16, k)])

    def keeps(p, pre, post, which, ret=''):
        """a function with twelve locals, whose values are looked at after pre"""
        n = len(p)
        locs = 'IiFIiIIiIIiI'
        body = []
        for j, t in enumerate(locs):
            v = 1000003 * (j + 1) * which
            body += [{'i': i32(v), 'I': i64(v * 77777), 'F': f64(v / 8)}[t], (33, n + j)]
        body += [i32(4321)] + pre
        body += [i32(4321), (0x46,)]
        for j, t in enumerate(locs):
            v = 1000003 * (j + 1) * which
            body += [(32, n + j), {'i': i32(v), 'I': i64(v * 77777), 'F': f64(v / 8)}[t], ({'i': 0x46, 'I': 0x51, 'F': 0x61}[t],), (0x71,)]
        return m.fn(p, ret, locs + 'i', body + post)
    # frames one upon the other, as many as the first byte of the argument says
    for w in (1, 2):
        f = len(m.imports) + len(m.funcs)
        deep = keeps('iI', [(32, 0), (0x45,), (4, 0x40), i32(w), (32, 1), (16, ix['onthread'][0]), i32(1), (33, 14), (5,),
                            (32, 0), i32(1), (0x6b,), (32, 1), (16, f), (33, 14), (0x0b,)], [(32, 14), (0x71,)], w, 'i')
        assert deep == f
        f = keeps('I', [(32, 0), (0xa7,), i32(255), (0x71,), (32, 0), (16, deep), (33, 13)], [(32, 13), (0x71,), (16, ix['onexit'][0])], w)
        m.exports.append(('thr%d' % w, 0, f))
        f = keeps('rrrr', [i32(w), (32, 0), (32, 1), (32, 2), (32, 3), (16, ix['oncb'][0])], [(16, ix['oncbend'][0])], w)
        m.exports.append(('cb%d' % w, 0, f))
    return m.encode()


MODS = {}


def sigs(rnd, n=9):
    out = []
    for k in range(n):
        c = rnd.random()
        ln = 0 if c < 0.1 else rnd.randint(1, 4) if c < 0.5 else rnd.randint(5, 14) if c < 0.9 else rnd.randint(20, 40)
        alpha = rnd.choice(['ilfdp', 'il', 'fd', 'ilfdp', 'ilfdpx'])
        args = [rnd.choice(alpha) for _ in range(ln)]
        fix = -1
        if ln and rnd.random() < 0.2:
            fix = rnd.randint(1, ln)
            args = [a if j < fix or a != 'f' else 'd' for j, a in enumerate(args)]
            args = ['p' if a == 'x' else a for a in args]
        out.append({'args': args, 'ret': rnd.choice('ilfdpv' if fix >= 0 else 'ilfdpvx'), 'fix': fix})
    return out


def library(work, sg):
    """recorders fn_k, and call_k that calls a function of the signature"""
    c = '#include <stdarg.h>\n#include <string.h>\nvoid (*take)(char, const void *); void (*result)(void *, char);\n'
    ct = lambda a: CT.get(a, 'void *')
    for k, s in enumerate(sg, 1):
        fix, args, ret = s['fix'], s['args'], s['ret']
        named = args if fix < 0 else args[:fix]
        c += '%s fn_%d(%s%s) {' % (ct(ret), k, ', '.join('%s a%d' % (ct(a), j) for j, a in enumerate(named)) or 'void', ', ...' if fix >= 0 else '')
        for j, a in enumerate(named):
            c += "take('%s', &a%d);" % (a, j)
        if fix >= 0:
            c += 'va_list v; va_start(v, a%d);' % (fix - 1)
            for j, a in enumerate(args[fix:]):
                c += "{ %s x = va_arg(v, %s); take('%s', &x); }" % (ct(a), ct(a), a)
            c += 'va_end(v);'
        if ret != 'v':
            c += "%s r; result(&r, '%s'); return r;" % (ct(ret), ret)
        c += '}\nvoid call_%d(void *f, unsigned char *v, unsigned char *out) {' % k
        for j, a in enumerate(args):
            c += '%s a%d; memcpy(&a%d, v + %d, sizeof a%d);' % (ct(a), j, j, 8 * j, j)
        call = '((%s (*)(%s))f)(%s)' % (ct(ret), ', '.join(ct(a) for a in args) or 'void', ', '.join('a%d' % j for j in range(len(args))))
        c += '%s;}\n' % call if ret == 'v' else '%s r = %s; memcpy(out, &r, sizeof r);}\n' % (ct(ret), call)
    src, so = os.path.join(work, 'lib.c'), os.path.join(work, 'lib.so')
    with open(src, 'w') as f:
        f.write(c)
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', src, '-o', so], check=True)
    with open(os.path.join(work, 'sigs.json'), 'w') as f:
        json.dump(sg, f)
    return so


def hx(v):
    return bytes(v).hex()


def case(cid, hist, rnd, so, sg, noffi=False):
    if noffi not in MODS:
        MODS[noffi] = module(noffi).hex()
    c = rnd.choice([(0, 3), (0, 3), (1, 3), (0, 2), (1, 2)])
    lines = ['CFG %d %d' % c, 'SO ' + so, 'MOD ' + MODS[noffi]]
    exp = []
    for h in hist:
        o, a, r = h['o'], h['a'], h['r']
        blocks, who = 0, -1
        if r and r[0] == 'blocks':
            blocks = 1
            who = r[1] if len(r) > 1 else -1
        elif o == 'unlock':
            who = r[0]
        if o == 'create':
            x = '%d %s' % (a[0], hx(a[1]))
        elif o == 'newcif':
            s = sg[a[1] - 1]
            x = '%d %d %d %d %s %s' % (a[0], a[1], a[2], s['fix'], s['ret'], ''.join(s['args']) or '-')
        elif o == 'call':
            x = '%d %d %d %s %s' % (a[0], a[1], a[2], sg[a[1] - 1]['ret'], ' '.join([hx(a[3])] + [hx(v) for v in a[4]]))
        elif o == 'newcb':
            x = '%d %d %d %d %s' % (a[0], a[1], a[2], a[4], hx(a[3]))
        elif o == 'prepare':
            x = '%d %d %d %s' % (a[0], a[1], a[2], hx(a[3]))
        elif o == 'callcb':
            s = sg[a[1] - 1]
            x = '%d %d %d %d %s %s %s %s' % (a[0], a[1], a[4], a[5], s['ret'], ''.join(s['args']) or '-', hx(a[2]), ''.join(hx(v) for v in a[3]) or '00')
        else:
            x = ' '.join(str(v) for v in a)
        lines.append('%s %d %d %d %d %s' % (o, h['t'], blocks, who, rnd.randrange(4), x))
        exp.append(r)
    return cid, lines, exp


def same(a, b):
    return a == b
