"""WebAssembly modules: one abstract syntax, encoded to binary for the real code and to JSON for the specification.

Value types are single characters: i=i32 I=i64 f=f32 F=f64 r=funcref e=externref.
Instructions are tuples:
  (opcode, imm...)            opcode 0..0xff, 0xFC ops are 64512+sub
  (65, bytes) .. (68, bytes)  constants carry little-endian bytes
  ('block', bt, body) ('loop', bt, body) ('if', bt, then, else_or_None)      bt: '' or a type character
  (14, [depths...], default)
  (28, t)                     typed select
  (208, t)                    ref.null
  loads / stores              (op, memidx, offset[, explicit index flag])
"""
import struct

VT = {'i': 0x7f, 'I': 0x7e, 'f': 0x7d, 'F': 0x7c, 'r': 0x70, 'e': 0x6f}
SPECT = {'i': 'i32', 'I': 'i64', 'f': 'f32', 'F': 'f64', 'r': 'ref', 'e': 'ref'}
FC = 64512


def uleb(v, pad=0):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if v or len(out) + 1 < pad:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def sleb(v, pad=0):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        done = (v == 0 and not b & 0x40) or (v == -1 and b & 0x40)
        if done and len(out) + 1 >= pad:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def i32(v):
    return (65, struct.pack('<I', v & 0xffffffff))


def i64(v):
    return (66, struct.pack('<Q', v & (2**64 - 1)))


def f32(v):
    return (67, struct.pack('<f', v))


def f64(v):
    return (68, struct.pack('<d', v))


def f32b(bits):
    return (67, struct.pack('<I', bits))


def f64b(bits):
    return (68, struct.pack('<Q', bits))


def const(t, b):
    return ({'i': 65, 'I': 66, 'f': 67, 'F': 68}[t], bytes(b))


# ---------------------------------------------------------------- binary encoding
class Enc:
    """encoding choices that do not change the meaning: LEB padding"""
    def __init__(self, rnd=None):
        self.rnd = rnd

    def u(self, v, bits=32):
        if self.rnd and self.rnd.random() < 0.3:
            return uleb(v, self.rnd.randint(1, (bits + 6) // 7))
        return uleb(v)

    def s(self, v, bits=32):
        if self.rnd and self.rnd.random() < 0.3:
            return sleb(v, self.rnd.randint(1, (bits + 6) // 7))
        return sleb(v)

    def bt(self, t):
        if isinstance(t, tuple):
            return self.s(t[1], 33)
        return bytes([VT[t]]) if t else b'\x40'

    def body(self, ins):
        return b''.join(self.ins(x) for x in ins)

    def ins(self, x):
        o = x[0]
        if o == 'block':
            return b'\x02' + self.bt(x[1]) + self.body(x[2]) + b'\x0b'
        if o == 'loop':
            return b'\x03' + self.bt(x[1]) + self.body(x[2]) + b'\x0b'
        if o == 'if':
            r = b'\x04' + self.bt(x[1]) + self.body(x[2])
            if x[3] is not None:
                r += b'\x05' + self.body(x[3])
            return r + b'\x0b'
        if o == 65:
            return b'\x41' + self.s(struct.unpack('<i', x[1])[0], 32)
        if o == 66:
            return b'\x42' + self.s(struct.unpack('<q', x[1])[0], 64)
        if o in (67, 68):
            return bytes([o]) + x[1]
        if o == 14:
            return b'\x0e' + self.u(len(x[1])) + b''.join(self.u(d) for d in x[1]) + self.u(x[2])
        if o == 28:
            return b'\x1c\x01' + bytes([VT[x[1]]])
        if o == 208:
            return b'\xd0' + bytes([VT[x[1]]])
        if o in (17, 19):
            return bytes([o]) + self.u(x[1]) + uleb(x[2])
        if 40 <= o <= 62:
            al = {40: 2, 41: 3, 42: 2, 43: 3, 44: 0, 45: 0, 46: 1, 47: 1, 48: 0, 49: 0, 50: 1, 51: 1, 52: 2, 53: 2, 54: 2, 55: 3,
                  56: 2, 57: 3, 58: 0, 59: 1, 60: 0, 61: 1, 62: 2}[o]
            if self.rnd:
                al = self.rnd.randint(0, al)
            if x[1] or (len(x) > 3 and x[3]):
                return bytes([o, al | 0x40]) + self.u(x[1]) + self.u(x[2])
            return bytes([o, al]) + self.u(x[2])
        if o in (63, 64):
            return bytes([o]) + uleb(x[1])
        if o >= FC:
            return b'\xfc' + bytes([o - FC]) + b''.join(uleb(v) for v in x[1:])
        return bytes([o]) + b''.join(self.u(v) for v in x[1:])


# ---------------------------------------------------------------- form read by the specification
def arity(t):
    return 9 if isinstance(t, tuple) else 1 if t else 0


def flatten(body):
    out = []

    def go(ins):
        for x in ins:
            o = x[0]
            if o == 'block':
                k = len(out)
                out.append([2, arity(x[1]), 0])
                go(x[2])
                out.append([11])
                out[k][2] = len(out)
            elif o == 'loop':
                k = len(out)
                out.append([3, arity(x[1]), 0])
                go(x[2])
                out.append([11])
                out[k][2] = len(out)
            elif o == 'if':
                k = len(out)
                out.append([4, arity(x[1]), 0, 0])
                go(x[2])
                if x[3] is not None:
                    e = len(out)
                    out.append([5, 0])
                    out[k][2] = e + 1
                    go(x[3])
                    out.append([11])
                    out[e][1] = len(out)
                else:
                    out.append([11])
                out[k][3] = len(out)
            elif o in (65, 66, 67, 68):
                out.append([o] + list(x[1]))
            elif o == 14:
                out.append([14] + list(x[1]) + [x[2]])
            elif o == 28:
                out.append([27])
            elif o == 208:
                out.append([208])
            elif 40 <= o <= 62:
                out.append([o, x[1]] + list(struct.pack('<Q', x[2])))
            else:
                out.append(list(x))
    go(body)
    return out


def size(body):
    n = 0
    for x in body:
        n += 1
        if x[0] in ('block', 'loop'):
            n += size(x[2])
        elif x[0] == 'if':
            n += size(x[2]) + (size(x[3]) if x[3] is not None else 0)
    return n


BUILTINS = ['version', 'memory_alloc', 'memory_free', 'load_module', 'unload_module', 'import', 'get_self_runtime_context',
            'native_index_size', 'ref_from_index', 'ref_copy_bytes', 'ref_string_length', 'ref_from_i64', 'i64_from_ref',
            'host_definition', 'fread', 'fwrite', 'fopen', 'fclose', 'stdio']


class Module:
    def __init__(self):
        self.types = []      # (params, results)
        self.imports = []    # (module, field, kind, desc): desc type index | (init,max|None) | (init,max|None) | (type, mut)
        self.funcs = []      # (type index, locals, body)
        self.tables = []     # (init, max or None)
        self.mems = []       # (init, max or None[, indexed by i64])
        self.globs = []      # (type, mutable, [const instrs])
        self.exports = []    # (name, kind, index)
        self.start = None
        self.elems = []      # (form, table, [offset expr], [[const expr]...])
        self.datas = []      # (form, mem, [offset expr], bytes)
        self.customs = []    # (position section id, name, bytes)
        self.elem_type = 0x70
        self.header = b'\x00asm\x01\x00\x00\x00'
        self.extra_nf = self.extra_nc = 0    # function and code section disagree by these
        self.badx = False
        self.nocode = False
        self.short = None                    # only the first bytes of the binary
        self.datacount = False
        self.groups = None                   # random generator: split local declarations into odd groups

    def type(self, p, r):
        if (p, r) not in self.types:
            self.types.append((p, r))
        return self.types.index((p, r))

    def nimp(self, kind):
        return sum(1 for x in self.imports if x[2] == kind)

    def fn(self, p, r, locs, body):
        self.funcs.append((self.type(p, r), locs, body))
        return self.nimp(0) + len(self.funcs) - 1

    def imports_of(self, kind):
        return [x for x in self.imports if x[2] == kind]

    def is64(self, k):
        """is memory k indexed by i64?"""
        ms = [x[3] for x in self.imports if x[2] == 2] + self.mems
        return len(ms[k]) > 2 and bool(ms[k][2])

    def imports_f(self, k):
        return self.imports_of(0)[k][3]

    def ftypes(self):
        return [x[3] for x in self.imports if x[2] == 0] + [f[0] for f in self.funcs]

    def gtypes(self):
        return [x[3] for x in self.imports if x[2] == 3] + [(g[0], g[1]) for g in self.globs]

    # ---- binary
    def encode(self, rnd=None, order=None):
        E = Enc(rnd)

        def vec(items):
            return E.u(len(items)) + b''.join(items)

        def name(s):
            b = s if isinstance(s, bytes) else s.encode()
            return E.u(len(b)) + b

        def limits(mn, mx, wide=False):
            return E.u((mx is not None) + 4 * bool(wide)) + E.u(mn) + (b'' if mx is None else E.u(mx))

        def tt(t):
            return bytes([0x70]) + limits(*t[:2])

        def imp(x):
            m, f, k, d = x
            r = name(m) + name(f) + bytes([k])
            if k == 0:
                return r + E.u(d)
            if k == 1:
                return r + tt(d)
            if k == 2:
                return r + limits(*d[:3])
            return r + bytes([VT[d[0]], 1 if d[1] else 0])

        def code(f):
            groups = []
            for t in f[1]:
                if groups and groups[-1][0] == t:
                    groups[-1][1] += 1
                else:
                    groups.append([t, 1])
            if self.groups:
                gs = []
                for t, n in groups:
                    while n > 1 and self.groups.random() < 0.4:
                        k = self.groups.randint(0, n - 1)
                        gs.append([t, k])
                        n -= k
                    gs.append([t, n])
                groups = gs
            b = vec([E.u(n) + bytes([VT[t]]) for t, n in groups]) + E.body(f[2]) + b'\x0b'
            return E.u(len(b)) + b

        def elem(e):
            form, t, off, fs = e
            # form 0: table 0, function indices; 2: explicit table, function indices
            if form == 0:
                return b'\x00' + E.body(off) + b'\x0b' + vec([E.u(x[0][1]) for x in fs])
            if form == 2:
                return b'\x02' + E.u(t) + E.body(off) + b'\x0b\x00' + vec([E.u(x[0][1]) for x in fs])
            if form == 4:
                return b'\x04' + E.body(off) + b'\x0b' + vec([E.body(x) + b'\x0b' for x in fs])
            if form == 6:
                return b'\x06' + E.u(t) + E.body(off) + b'\x0b\x70' + vec([E.body(x) + b'\x0b' for x in fs])
            if form in (1, 3):
                return bytes([form, 0]) + vec([E.u(x[0][1]) for x in fs])
            if form in (5, 7):
                return bytes([form, 0x70]) + vec([E.body(x) + b'\x0b' for x in fs])
            return E.u(form) + b'\x00' + vec([])

        def data(d):
            form, m, off, bs = d
            if form % 2:
                return E.u(form) + E.u(len(bs)) + bytes(bs)
            if form > 2:
                return E.u(form) + E.u(m) + E.body(off) + b'\x0b' + E.u(len(bs)) + bytes(bs)
            if form == 0:
                return b'\x00' + E.body(off) + b'\x0b' + E.u(len(bs)) + bytes(bs)
            return b'\x02' + E.u(m) + E.body(off) + b'\x0b' + E.u(len(bs)) + bytes(bs)

        secs = {}
        if self.types:
            secs[1] = vec([b'\x60' + vec([bytes([VT[c]]) for c in p]) + vec([bytes([VT[c]]) for c in r]) for p, r in self.types])
        if self.imports:
            secs[2] = vec([imp(x) for x in self.imports])
        if self.funcs:
            secs[3] = vec([E.u(f[0]) for f in self.funcs] + [E.u(0)] * self.extra_nf)
        if self.tables:
            secs[4] = vec([tt(t) for t in self.tables])
        if self.mems:
            secs[5] = vec([limits(*m[:3]) for m in self.mems])
        if self.globs:
            secs[6] = vec([bytes([VT[g[0]], 1 if g[1] else 0]) + E.body(g[2]) + b'\x0b' for g in self.globs])
        if self.exports:
            secs[7] = vec([name(n) + bytes([k]) + E.u(x) for n, k, x in self.exports])
        if self.start is not None:
            secs[8] = E.u(self.start)
        if self.elems:
            secs[9] = vec([elem(e) for e in self.elems])
        if self.funcs and not self.nocode:
            secs[10] = vec([code(f) for f in self.funcs] + [b'\x02\x00\x0b'] * self.extra_nc)
        if self.datas:
            secs[11] = vec([data(d) for d in self.datas])
        out = self.header
        for k in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11]:
            for pos, n, b in self.customs:
                if pos == k:
                    c = name(n) + b
                    out += b'\x00' + E.u(len(c)) + c
            if k == 12 and self.datacount:
                secs[12] = E.u(len(self.datas))
            if k in secs:
                out += bytes([k]) + E.u(len(secs[k])) + secs[k]
        return out if self.short is None else out[:self.short]

    # ---- specification
    def spec(self):
        def cx(ins):
            return [[x[0]] + list(x[1]) if 65 <= x[0] <= 68 else ([208] if x[0] == 208 else list(x)) for x in ins]

        return {
            'types': [{'p': [SPECT[c] for c in p], 'r': [SPECT[c] for c in r]} for p, r in self.types],
            'ft': self.ftypes(), 'nimpf': self.nimp(0),
            'fns': [{'l': [SPECT[c] for c in f[1]], 'c': flatten(f[2])} for f in self.funcs],
            'tabs': [[min(t[0], 0x7fffffff), -1 if t[1] is None else min(t[1], 0x7fffffff)] for t in self.tables],
            'mems': [[m[0], -1 if m[1] is None else m[1]] for m in self.mems],
            'm64': [int(self.is64(k)) for k in range(self.nimp(2) + len(self.mems))],
            'globs': [{'x': cx(g[2])} for g in self.globs],
            'exp': [{'n': n if isinstance(n, str) else n.hex(), 'k': k, 'x': x} for n, k, x in self.exports],
            'elem': [{'t': e[1], 'x': cx(e[2]), 'f': [cx(f) for f in e[3]]} for e in self.elems if e[0] % 2 == 0],
            'data': [{'m': d[1], 'x': cx(d[2]), 'b': list(d[3])} for d in self.datas if d[0] % 2 == 0],
            'start': -1 if self.start is None else self.start,
            'hdr': list(self.header[:8 if self.short is None else self.short]), 'cus': [blen(n) for _, n, _ in self.customs], 'xl': [blen(n) for n, _, _ in self.exports],
            'imp': [{'k': k, 'mn': d[0] if k in (1, 2) else 0, 'nl': blen(m) + blen(f) + 2} for m, f, k, d in self.imports],
            'df': [d[0] for d in self.datas], 'ef': [e[0] for e in self.elems],
            'nf': len(self.funcs) + self.extra_nf, 'nc': 0 if self.nocode else len(self.funcs) + self.extra_nc, 'badx': self.badx,
        }


# ---------------------------------------------------------------- cases
class Case:
    """a scripted case: commands for the harness and the static part of the events they produce"""
    def __init__(self, cid):
        self.id = cid
        self.lines = []
        self.tmpl = []       # (event kind, dict)
        self.mods = []
        self.insts = []      # module number of each instance
        self.meta = {}
        self.hostt = {}      # host function types
        self.nhg = self.nhm = self.nht = 0
        self.store = {'m': 0, 't': 0, 'g': 0}
        self.haddr = {}      # host object -> store address
        self.hmods = {}      # further host modules: name -> (number, {(field, kind): index})
        self.addr = {}       # instance -> kind -> index -> store address
        self.freed = set()

    def cmd(self, s):
        self.lines.append(s)

    def cfg(self, stack, misc):
        self.cmd('CFG %d %d' % (stack, misc))

    def module(self, m, rnd=None):
        self.mods.append(m)
        self.cmd('MOD ' + m.encode(rnd).hex())
        return len(self.mods)

    def hostfn(self, h, p, r, results=(), cb=None):
        p2, r2 = p.replace('e', 'r') or '-', r.replace('e', 'r') or '-'
        self.hostt[h] = (p, r)
        self.cmd('HF %d %s %s' % (h, p2, r2))
        for x in results:
            self.cmd('HRES %d %s' % (h, ' '.join(x)))
        if cb:
            self.cmd('HCB %d %d %d %d %s' % (h, cb[0], cb[1], cb[2], ' '.join(cb[3])))

    def hostmem(self, pages, mx):
        self.cmd('HMEM %d %d' % (pages, mx))
        self.store['m'] += 1
        self.haddr['m%d' % self.nhm] = self.store['m']
        self.nhm += 1

    def hosttab(self, refs, mx=None):
        self.cmd('HTAB %d %s%s' % (len(refs), '' if mx is None else '^%d ' % mx, ' '.join(refs)))
        self.store['t'] += 1
        self.haddr['t%d' % self.nht] = self.store['t']
        self.nht += 1

    def hostglob(self, b):
        self.cmd('HGLOB ' + bytes(b).hex())
        self.store['g'] += 1
        self.haddr['g%d' % self.nhg] = self.store['g']
        self.nhg += 1

    def hmod(self, name):
        """a host module of any name; its fields are given by halias"""
        self.cmd('HMOD ' + (name if isinstance(name, bytes) else name.encode()).hex())
        self.hmods[name] = (len(self.hmods), {})

    def halias(self, name, field, kind, idx):
        k, t = self.hmods[name]
        self.cmd('HALIAS %d %d %d %s' % (k, kind, idx, (field if isinstance(field, bytes) else field.encode()).hex()))
        t[field, kind] = idx

    def resolve(self, im, fld, k):
        """the binding of an import: what the resolver supplies, then the builtins"""
        x = None
        if im in self.hmods:
            x = self.hmods[im][1].get((fld, k))
        elif im == 'host':
            if isinstance(fld, str) and fld[:1] == 'htmg'[k] and fld[1:].isdigit():
                x = int(fld[1:])
                if not (x < 16 if k == 0 else '%s%d' % ('htmg'[k], x) in self.haddr):
                    x = None
        else:
            js = [j + 1 for j in range(len(self.insts)) if self.insts[j][1] == im and j + 1 not in self.freed]
            if js:
                return {'i': js[-1], 'k': k, 'n': fld if isinstance(fld, str) else fld.hex(), 'a': []}
        if x is not None:
            return {'i': 0, 'k': k, 'n': '', 'a': [2, x] if k == 0 else [self.haddr['%s%d' % ('htmg'[k], x)]]}
        if im == 'pwart_builtin' and k == 0 and fld in BUILTINS:
            return {'i': 0, 'k': 0, 'n': '', 'a': [3, fld]}
        return {'i': 0, 'k': k, 'n': '', 'a': []}

    def load(self, mi, name='m', mode=0, fns=True, refused=False, nomem=()):
        m = self.mods[mi - 1]
        b = [self.resolve(im, fld, k) for im, fld, k, d in m.imports]
        self.cmd('LOAD %d %s %d %s' % (mi, name, mode, ' '.join(map(str, nomem))))
        self.tmpl.append(('load', {'m': mi, 'b': b}))
        if refused:
            return 0
        self.insts.append((mi, name))
        inst = len(self.insts)
        ad = {1: [], 2: [], 3: []}
        for x, (im, fld, k, d) in zip(b, m.imports):
            if k:
                ad[k].append(x['a'][0] if x['i'] == 0 else self.addr[x['i']][k][self._x(x['i'], fld, k)])
        for k, key in ((2, 'm'), (1, 't'), (3, 'g')):
            for _ in range(len({2: m.mems, 1: m.tables, 3: m.globs}[k])):
                self.store[key] += 1
                ad[k].append(self.store[key])
        self.addr[inst] = ad
        if fns:
            self.expose(inst)
        return inst

    def findp(self, inst, kind, name):
        """register the address of an exported object, so that lookups of it can be recognised"""
        self.cmd('FINDP %d %d %s %d' % (inst, kind, name, self.addr[inst][kind][self._x(inst, name, kind)]))

    def free(self, inst):
        self.cmd('SFREE %d' % inst)
        self.freed.add(inst)

    def insp(self, inst):
        self.cmd('INSP %d' % inst)
        self.tmpl.append(('insp', {'i': inst}))

    def expose(self, inst):
        m = self.mods[self.insts[inst - 1][0] - 1]
        ft = m.ftypes()
        for n, k, x in m.exports:
            if k == 0 and isinstance(n, str) and ' ' not in n and 0 < len(n) < 250:
                p, r = m.types[ft[x]]
                own = x >= m.nimp(0)
                self.cmd('FN %d %d %s %s %s %d %d' % (inst, x, p.replace('e', 'r') or '-', r.replace('e', 'r') or '-', n,
                                                     inst if own else 0, x))

    def call(self, inst, f, args):
        self.cmd('CALL %d %d %s' % (inst, f, ' '.join(args)))

    def _x(self, inst, name, kind):
        m = self.mods[self.insts[inst - 1][0] - 1]
        return [x for n, k, x in m.exports if n == name and k == kind][0]

    def mem(self, inst, name):
        self.cmd('MEM %d %s' % (inst, name))
        self.tmpl.append(('mem', {'i': inst, 'k': self._x(inst, name, 2)}))

    def glob(self, inst, name):
        k = self._x(inst, name, 3)
        m = self.mods[self.insts[inst - 1][0] - 1]
        self.cmd('GLOB %d %s %s' % (inst, name, m.gtypes()[k][0].replace('e', 'r')))
        self.tmpl.append(('glob', {'i': inst, 'k': k}))

    def tab(self, inst, name):
        self.cmd('TAB %d %s' % (inst, name))
        self.tmpl.append(('tab', {'i': inst, 'k': self._x(inst, name, 1)}))

    def pglob(self, inst, name, v):
        self.cmd('PGLOB %d %s %s' % (inst, name, v))
        self.tmpl.append(('pglob', {'i': inst, 'k': self._x(inst, name, 3)}))

    def pmem(self, inst, name, a, b):
        self.cmd('PMEM %d %s %u %s' % (inst, name, a, bytes(b).hex()))
        self.tmpl.append(('pmem', {'i': inst, 'k': self._x(inst, name, 2)}))

    def ptab(self, inst, name, x, ref):
        self.cmd('PTAB %d %s %d %s' % (inst, name, x, ref))
        self.tmpl.append(('ptab', {'i': inst, 'k': self._x(inst, name, 1)}))

    def find(self, inst, kind, name):
        b = name if isinstance(name, bytes) else name.encode()
        self.cmd('FIND %d %d %s' % (inst, kind, b.hex()))
        self.tmpl.append(('find', {'i': inst, 'n': name if isinstance(name, str) else name.hex(), 'k': kind}))

    def start(self, inst):
        self.cmd('START %d' % inst)
        self.tmpl.append(('start', {'i': inst}))

    def script(self):
        return 'CASE %s\n%s\nEND\n' % (self.id, '\n'.join(self.lines))

    def merge(self, events):
        """real events + static parts -> the case the trace specification reads"""
        out, t = [], list(self.tmpl)
        kinds = {'load', 'mem', 'glob', 'tab', 'pglob', 'pmem', 'ptab', 'find', 'start', 'insp'}
        for e in events:
            if e['e'] in kinds:
                if not t or t[0][0] != e['e']:
                    raise RuntimeError('harness and script disagree in case %s at %r' % (self.id, e))
                e = dict(e, **t.pop(0)[1])
            out.append(e)
        return {'id': self.id, 'mods': [m.spec() for m in self.mods], 'ev': out}


def blen(n):
    return len(n if isinstance(n, bytes) else n.encode())


def hx(v):
    return bytes(v).hex()
