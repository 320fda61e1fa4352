"""Property -> what its check does."""
import shutil
import gen_num, gen_prog, gen_dir, gen_load, gen_ns, gen_rs, gen_bi, beh, lir, gen_mem, gen_rx, gen_sys, gen_err, gen_simd

PROPS = {}
CFGS = [(0, 3), (1, 3), (0, 2), (1, 2)]


def prop(f):
    PROPS[f.__name__] = f
    return f


def num(ctx, ops, n):
    def go(k):
        ctx.wasm(gen_num.cases(ctx.rnd, ops, n, 8, 8, 'n%d_' % k), 'numeric')
    ctx.rounds(go)


def prog(ctx, prof, n, cfgs=((0, 3),), also=None, **kw):
    def go(k):
        cs = []
        for j, c in enumerate(cfgs):
            cs += gen_prog.cases(ctx.rnd, prof, n // len(cfgs), 'p%d_%d_' % (k, j), cfg=None if c == (0, 3) else c, **kw)
        if also:
            cs += also(k)
        ctx.wasm(cs, prof)
    ctx.rounds(go)


def many(ctx, fn, n):
    """a directed generator, mostly under the default configuration and some under the others"""
    def go(k):
        out = []
        for j, c in enumerate(CFGS):
            cnt = n - 3 * (n // 10) if j == 0 else n // 10
            out += gen_dir.many(fn, ctx.rnd, cnt, '%s%d_%d_' % (fn.__name__[:3], k, j), cfg=None if j == 0 else c)
        return out
    return go


@prop
def C01(ctx):
    num(ctx, gen_num.INT_OPS, 700)


@prop
def C02(ctx):
    num(ctx, gen_num.FLT_OPS, 600)


@prop
def C03(ctx):
    num(ctx, gen_num.CONV_OPS, 600)


@prop
def C04(ctx):
    prog(ctx, 'control', 850, also=many(ctx, gen_dir.control_case, 60))


@prop
def C05(ctx):
    prog(ctx, 'locals', 800)


@prop
def C06(ctx):
    prog(ctx, 'pending', 700)


@prop
def C07(ctx):
    prog(ctx, 'calls', 570, also=many(ctx, gen_dir.wide_case, 20))


@prop
def C08(ctx):
    prog(ctx, 'memory', 550, also=many(ctx, gen_dir.offsets_case, 60))


@prop
def C09(ctx):
    def go(k):
        ctx.wasm(many(ctx, gen_dir.grow_case, 220)(k) + many(ctx, gen_dir.reload_case, 160)(k), 'grow')
    ctx.rounds(go)


@prop
def C10(ctx):
    prog(ctx, 'bulk', 400, also=many(ctx, gen_dir.bulk_case, 200))


@prop
def C11(ctx):
    def go(k):
        ctx.wasm(many(ctx, gen_dir.tables_case, 380)(k) + many(ctx, gen_dir.wide_case, 20)(k), 'tables')
    ctx.rounds(go)


@prop
def C12(ctx):
    def also(k):
        return many(ctx, gen_dir.globals_case, 140)(k) + many(ctx, gen_dir.wide_case, 20)(k)
    prog(ctx, 'globals', 440, also=also)


@prop
def C13(ctx):
    ctx.rounds(lambda k: ctx.wasm(many(ctx, gen_load.shape_case, 280)(k) + many(ctx, gen_dir.wide_case, 20)(k), 'shape'))


@prop
def C14(ctx):
    exe = ctx.exe('nsrun', lambda: gen_ns.exe(ctx.work))
    def cfg(tail, **kw):
        return gen_ns.CFG % kw + tail

    asan = ctx.exe('nsasan', lambda: gen_ns.exe(ctx.work, 'nsasan', ['-fsanitize=address']))
    # every transition of a small instance
    b = dict(n=2, K=1, hosts='1, 2' if ctx.quick else '1, 2, 3', ways='0', depth=4 if ctx.quick else 5, maxi=2 if ctx.quick else 3, rand='FALSE')
    hs = beh.generate(ctx, 'Namespace.tla', cfg('VIEW View\nACTION_CONSTRAINT EmitStep\n', **b), 'bfs')
    ctx.count('exhaustive histories', len(hs))
    beh.replay(ctx, exe, [gen_ns.case('b%d' % k, 1, gen_ns.NAMES[2], h) for k, h in enumerate(hs)], 'namespace', gen_ns.same)
    def go(k):
        n = 7 if k % 2 == 0 else 3
        K, hosts = 2, '1, 2, 3, 4'
        if k % 3 == 1:
            n, K, hosts = 18, 1, '1, 2, 3, 4, 5, 5'   # modules that come and go inside callbacks
        hs = beh.generate(ctx, 'Namespace.tla', cfg('INVARIANT EmitLong\n', n=n, K=K, hosts=hosts, ways='0, 1', depth=40, maxi=30, rand='TRUE'), 'sim',
                          sim=150 if ctx.quick else 600, depth=41, seed=ctx.seed * 1000 + k)
        beh.replay(ctx, (exe, asan)[k % 3 != 0], [gen_ns.case('s%d_%d' % (k, j), K, gen_ns.NAMES[n], h) for j, h in enumerate(hs)], 'namespace', gen_ns.same)
    for k in range(2):
        go(k)
    ctx.rounds(lambda k: go(k + 2))


@prop
def C15(ctx):
    exe = ctx.exe('rsrun', lambda: gen_rs.exe(ctx.work))
    asan = ctx.exe('rsasan', lambda: gen_rs.exe(ctx.work, 'rsasan', ['-fsanitize=address']))
    # every sequence of types up to a length, under both alignments, read back directly and through a function
    hs = beh.generate(ctx, 'RStack.tla', gen_rs.RS % dict(types='"i", "I", "f", "F", "r"', bases='0, 4', depth=3 if ctx.quick else 4, mode='struct', emit='EmitStruct'), 'frames',
                      workers=6, timeout=600)
    ctx.count('exhaustive frames', len(hs))
    beh.replay(ctx, exe, [gen_rs.case('b%d' % k, h, ctx.rnd) for k, h in enumerate(hs)], 'frames')
    def go(k):
        hs = beh.generate(ctx, 'RStack.tla', gen_rs.RS % dict(types='"i", "I", "f", "F", "r"', bases='0, 4, 8, 24', depth=40, mode='rand', emit='EmitRand'), 'rstack',
                          sim=300 if ctx.quick else 1500, depth=41, seed=ctx.seed * 1000 + k)
        beh.replay(ctx, exe, [gen_rs.case('s%d_%d' % (k, j), h, ctx.rnd) for j, h in enumerate(hs)], 'rstack')
        hs = beh.generate(ctx, 'HostApi.tla', gen_rs.HA % dict(depth=60, slots=4), 'hostapi', sim=300 if ctx.quick else 1500, depth=61, seed=ctx.seed * 1000 + k)
        beh.replay(ctx, asan, [gen_rs.hacase('h%d_%d' % (k, j), h) for j, h in enumerate(hs)], 'hostapi')
    ctx.rounds(go)


@prop
def C16(ctx):
    exe = ctx.exe('birun', lambda: gen_bi.exe(ctx.work))
    def go(k):
        hs = beh.generate(ctx, 'Builtins.tla', gen_bi.CFG % dict(depth=60), 'builtins', sim=500 if ctx.quick else 2000, depth=61, seed=ctx.seed * 1000 + k)
        tmp = ctx.sub('files%d' % k)
        beh.replay(ctx, exe, [gen_bi.case('h%d_%d' % (k, j), h, ctx.rnd, tmp) for j, h in enumerate(hs)], 'builtins', gen_bi.same)
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.rounds(go)


@prop
def C17(ctx):
    prog(ctx, 'mix', 700, cfgs=CFGS)


@prop
def C18(ctx):
    def go(k):
        ctx.wasm(many(ctx, gen_load.life_case, 250)(k) + many(ctx, gen_load.twice_case, 150)(k), 'life')
    ctx.rounds(go)


@prop
def C27(ctx):
    ctx.rounds(lambda k: ctx.wasm(many(ctx, gen_load.refuse_case, 400)(k), 'refuse'))


def lirprop(ctx, kind, n, ser=0.0):
    """sljit with argument checks and debug assertions (the default), without, and on processors that lack some instructions"""
    def go(k):
        for j, fl in enumerate(('default', 'release', 'oldcpu')):
            ks = kind if isinstance(kind, (list, tuple)) else [kind]
            for q in ks:
                lir.run(ctx, q, n // len(ks) // (5 if fl == 'oldcpu' else 2), fl, '%s%d%s_' % (q[0], k, fl[0]), ser)
    ctx.rounds(go)


@prop
def C19(ctx):
    lirprop(ctx, 'int', 1600 if ctx.quick else 800)


@prop
def C20(ctx):
    lirprop(ctx, 'float', 800)


@prop
def C21(ctx):
    # every distance around those at which jumps change their form
    for j, fl in enumerate(('default', 'release')):
        lir.run(ctx, 'ctl', 4 if ctx.quick else 20, fl, 'sweep%s' % fl[0], sweep=(45, 130))
    # executable memory that is written through another mapping, or is writable or executable in turn
    for fl in ('prot', 'wx'):
        lir.run(ctx, 'ctl', 150 if ctx.quick else 1500, fl, 'a%s' % fl)
    lirprop(ctx, 'ctl', 1000 if ctx.quick else 600)


@prop
def C22(ctx):
    for fl in ('prot', 'wx'):
        lir.run(ctx, 'ctl', 60 if ctx.quick else 600, fl, 'a%s' % fl, 0.25)
    lirprop(ctx, ['ctl', 'int', 'float'], 600, 0.25)


BIG = '1, 40, 48, 49, 64, 100, 500, 1000, 2000, 4000, 8000, 16000, 30000, 32000, 60000, 65400, 65439, 65440, 65504, 65520, 70000, 131000'
@prop
def C23(ctx):
    # the design of the allocator, exhaustively on small chunks; every history of a bounded length replayed on the real one with chunks of that size
    b = dict(chunk=48, sizes='1, 80, 120, 200', live=4, chunks=2, depth=6 if ctx.quick else 8, rand='FALSE', faults='FALSE')
    beh.generate(ctx, 'ExecAllocImpl.tla', gen_mem.EA % dict(b, depth=b['depth'] + 2) + 'VIEW View\nPROPERTY GaveBack\n', 'design', workers=6, timeout=600)
    hs = beh.generate(ctx, 'ExecAllocImpl.tla', gen_mem.EA % dict(b, depth=b['depth'] - 1) + 'INVARIANT EmitLong\n', 'bfs', workers=6, timeout=600)
    ctx.count('exhaustive histories', len(hs))
    gen_mem.allocs(ctx, hs, 'tiny', 'b', 1)

    def go(k):
        for fl, chunk, sizes in (('default', 8192, BIG), ('small', 128, '1, 48, 60, 100, 200, 400, 500, 900, 940, 1000, 1100'), ('prot', 8192, BIG), ('wx', 8192, BIG)):
            hs = beh.generate(ctx, 'ExecAllocImpl.tla', gen_mem.EA % dict(chunk=chunk, sizes=sizes, live=12, chunks=10, depth=50, rand='TRUE', faults='TRUE') + 'INVARIANT EmitLong\n', 'sim-' + fl,
                              sim=(200 if fl in ('default', 'small') else 60) * (1 if ctx.quick else 4), depth=51, seed=ctx.seed * 1000 + k)
            gen_mem.allocs(ctx, hs, fl, '%s%d_' % (fl, k), int(fl != 'wx'))
            gen_mem.threads(ctx, fl, 6, '%s-threads%d_' % (fl, k))
    ctx.rounds(go)


@prop
def C24(ctx):
    def go(k):
        for fl, page, reg in (('default', 4096, 'TRUE'), ('simple', 1, 'FALSE')):
            x = ctx.exe('mem-' + fl, lambda: gen_mem.exe(ctx.work, fl))
            hs = beh.generate(ctx, 'GrowStack.tla', gen_mem.GS % dict(page=page, regions=reg, depth=60), 'sim-' + fl, sim=300 if ctx.quick else 1500, depth=61, seed=ctx.seed * 1000 + k)
            beh.replay(ctx, x, [gen_mem.stack_case('%s%d_%d' % (fl, k, j), h) for j, h in enumerate(hs)], 'stack')
    ctx.rounds(go)


SMALL = [b'', b'ab', b'ba\na', b'aab']
@prop
def C25(ctx):
    # every short pattern
    deep = not ctx.quick
    cs = gen_rx.small(b'ab(|)*+{1}.^$[]', 0, 3 if not deep else 4, SMALL, (0, 8, 4, 12), 's', lambda j: j % (12 if deep else 4) == ctx.seed % (12 if deep else 4))
    for j in range(0, len(cs), 4000):
        gen_rx.judge(ctx, 'default', cs[j:j + 4000], 's')

    def go(k):
        for fl, n in (('default', 1500), ('release', 500), ('asan', 500)):
            gen_rx.judge(ctx, fl, [gen_rx.case(ctx.rnd, '%s%d_%d' % (fl, k, j)) for j in range(n)], fl)
    ctx.rounds(go)


@prop
def C26(ctx):
    def go(k):
        for name, parts in (('sysrun', (('threads', 100), ('foreign', 140), ('both', 70))), ('sysasan', (('threads', 40), ('foreign', 100))), ('sysoff', (('both', 40),))):
            x = ctx.exe(name, lambda: gen_sys.exe(ctx.work, name, ['-fsanitize=address'] if name == 'sysasan' else []))
            for j, (part, n) in enumerate(parts):
                w = ctx.sub('%s-%s%d' % (name, part, k))
                sg = gen_sys.sigs(ctx.rnd)
                so = gen_sys.library(w, sg)
                hs = beh.generate(ctx, 'Bindings.tla', gen_sys.CFG % dict(depth=60, part=part, ffi=int(name != 'sysoff')), part, sim=n * (1 if ctx.quick else 4), depth=61,
                                  seed=ctx.seed * 1000 + k * 10 + j, env={'SIGS': w + '/sigs.json'})
                beh.replay(ctx, x, [gen_sys.case('%s-%s%d_%d' % (name, part, k, i), h, ctx.rnd, so, sg, name == 'sysoff') for i, h in enumerate(hs)], part,
                           extra={'library': open(w + '/lib.c').read()})
    ctx.rounds(go)


@prop
def C28(ctx):
    beh.generate(ctx, 'LirBuild.tla', open('%s/LirBuild.cfg' % beh.tlc.SPEC).read(), 'LirBuild')

    def go(k):
        for fl, n in (('default', 120), ('release', 200), ('oldcpu', 48), ('prot', 32), ('wx', 32)):
            gen_err.run(ctx, fl, ('int', 'float', 'ctl', 'simd'), n, 6 if ctx.quick else 40, '%s%d_' % (fl, k))
    ctx.rounds(go)


@prop
def C29(ctx):
    def go(k):
        for fl, n in (('default', 260), ('release', 100), ('oldcpu', 100), ('wx', 40)):
            gen_simd.run(ctx, fl, n, '%s%d_' % (fl, k))
    ctx.rounds(go)


def harness(ctx, name):
    """the harness a recorded history was run with, and how its observations are compared"""
    if name.startswith('mem-'):
        return gen_mem.exe(ctx.work, name[4:]), lambda a, b: a == b
    asan = ['-fsanitize=address'] if name.endswith('asan') else []
    g = {'sy': gen_sys, 'ns': gen_ns, 'rs': gen_rs, 'bi': gen_bi}[name[:2]]
    return ctx.exe(name, lambda: g.exe(ctx.work, name, asan)), getattr(g, 'same', lambda a, b: a == b)


REPLAY = 'TLA+ specification (%s), TLC-generated behaviours replayed on the real code, every observation compared'
LIR = ('TLA+ specification (Lir.tla) of the intermediate code, TLC checks every observation of generated programs run on the real compiler', 'model_checking')
TECH = {
    'C19': (LIR[0], LIR[1], 'random programs over all integer operations, operand forms, overlaps and register files'),
    'C20': (LIR[0], LIR[1], 'random programs over all floating point operations and conversions'),
    'C21': (LIR[0], LIR[1], 'random programs with jumps, calls, fast calls, indirect jumps, constants and jumps patched between runs'),
    'C22': (LIR[0], LIR[1], 'the same programs with the compiler serialized, thrown away and restored at random points'),
    'C14': (REPLAY % 'Namespace.tla', 'model_checking', 'all transitions of a bounded instance are enumerated and replayed, and long random histories; the specification itself is checked against the property stated over the history'),
    'C23': ('TLA+ specifications: ExecAllocImpl.tla (the design, checked by TLC against ExecAlloc.tla) generates histories, TLC checks what was recorded against ExecAlloc.tla', 'model_checking', 'every history of a bounded length on small chunks; random histories, with refused system memory, on all three allocators'),
    'C24': (REPLAY % 'GrowStack.tla', 'model_checking', 'random histories over both ways of building the stack'),
    'C25': ('TLA+ specification (Regex.tla) of the pattern language and of match objects, TLC checks recorded histories of the real compiler (RegexTrace.tla)', 'model_checking', 'every pattern of up to three characters over the special ones, random patterns, strings and histories'),
    'C26': (REPLAY % 'Bindings.tla', 'model_checking', 'random histories of up to four threads with all blocking calls, random foreign signatures; every result is compared'),
    'C29': ('TLA+ specification (Simd.tla) of the vector operations, TLC checks every observation of generated programs run on the real compiler', 'model_checking', 'random programs over every form of every vector operation, both encodings, all registers and addressing modes'),
    'C28': ('TLA+ specification (LirBuild.tla) of the compiler\'s error state, checked by TLC; TLC checks what was recorded while generated programs were built with memory refused (LirBuildTrace.tla)', 'model_checking', 'tens of thousands of builds of generated programs, each with heap or executable memory refused at a chosen point, under four builds of sljit'),
    'C16': (REPLAY % 'Builtins.tla', 'model_checking', 'random histories of the specification; every result of every builtin call is compared'),
    'C15': (REPLAY % 'RStack.tla, HostApi.tla', 'model_checking', 'all type sequences to a bounded length under both alignments, random histories beyond'),
}
