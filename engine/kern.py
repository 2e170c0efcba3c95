"""Compression kernels against F of RFC 7693 (P01, P02)."""
import terms as tm
from terms import T, cat, sel, ext
import interp as I
import spec
import sweep
from chk import Trace, Undecided

# name -> (harness function, lanes, calling convention)
KERNELS = {
    'portable': ('h_k1_portable', 1, 'one'),
    'sse41': ('h_k1_sse41', 1, 'one'),
    'portable8': ('h_k8_portable', 8, 'many'),
    'avx2': ('h_k8_avx2', 8, 'many'),
    'avx2 vectorized': ('h_k8v_avx2', 8, 'words'),
    'avx2 transposed': ('h_k8t_avx2', 8, 'all'),
    'sse41 transposed': ('h_k4t_sse41', 4, 'blocks'),
}


def setup(part, name, flags=False):
    """-> (scenario, arguments, lanes, function reading word i of lane j, description of the inputs)"""
    fn, n, conv = KERNELS[name]
    sc = part.scenario(name, hook=False, merge=False)
    v = tm.var
    h = [[v('h%d_%d' % (j, i), 32) for i in range(8)] for j in range(n)]
    c = [v('c%d' % j, 64) for j in range(n)]
    if flags:
        # as the hash functions call it: not last, last, last of the last node
        fl = [v('fin%d' % j, 1) for j in range(n)]
        ln = [v('last%d' % j, 1) for j in range(n)]
        f0 = [tm.sext(x, 1, 32) for x in fl]
        f1 = [tm.sext(tm.and_(x, y, 1), 1, 32) for x, y in zip(fl, ln)]
    else:
        f0 = [v('f0_%d' % j, 32) for j in range(n)]
        f1 = [v('f1_%d' % j, 32) for j in range(n)]
    msg = [sc.arr('m%d' % j, 64) for j in range(n)] if conv != 'all' else None
    lanes = []
    tw = lambda ws: [ws[j] for j in range(n)]
    if conv == 'one':
        hp = sc.data('h', h[0], 32, align=4)
        args = [hp, msg[0], c[0], f0[0], f1[0]]
        at = lambda st, j: word(sc, st, hp, 0)
    elif conv == 'many':
        hs = [sc.data('h%d' % j, h[j], 32, align=4) for j in range(8)]
        hp = sc.data('hp', hs, 64)
        args = [hp, sc.data('mp', msg, 64), sc.data('cs', c, 64), sc.data('f0s', f0, 32), sc.data('f1s', f1, 32)]
        at = lambda st, j: word(sc, st, hs[j], 0)
    else:
        al = 16 if n == 4 else 32
        hp = sc.data('h', [h[j][i] for i in range(8) for j in range(n)], 32, align=al)
        at = lambda st, j: [word1(sc, st, hp, 4 * (n * i + j)) for i in range(8)]
        cl = [ext(x, 0, 32) for x in c]
        ch = [ext(x, 32, 32) for x in c]
        if conv == 'words':
            args = [hp, sc.data('mp', msg, 64)] + [sc.data(nm, ws, 32, align=32) for nm, ws in (('cl', cl), ('ch', ch), ('f0s', f0), ('f1s', f1))]
        else:
            w4 = sc.data('w', cl + ch + f0 + f1, 32, align=al)
            if conv == 'all':
                mw = [[v('m%d_%d' % (j, i), 32) for i in range(16)] for j in range(n)]
                mp = sc.data('m', [mw[j][i] for i in range(16) for j in range(n)], 32, align=al)
            else:
                mp = sc.data('mp', msg, 64)
            args = [hp, mp, w4]
    if conv != 'all':
        mw = [[cat([(sel('m%d' % j, 4 * i + k), 8) for k in range(4)]) for i in range(16)] for j in range(n)]
    return sc, fn, args, n, at, (h, mw, c, f0, f1), hp


def word1(sc, st, p, off):
    return sc.e.load(st, I.Ptr(p.obj, off), ('i', 32), 4)


def word(sc, st, p, off):
    return [word1(sc, st, p, off + 4 * i) for i in range(8)]


def kernel(part, name, flags=False, via=None):
    """every output word of every lane is F of that lane's inputs; nothing else is written"""
    tm.RAW[0] = True
    try:
        kernel1(part, name, flags, via)
    finally:
        tm.RAW[0] = False


def verify(part, sc):
    """the transposed kernels that `sc` routed to the stream layer compute F"""
    if part.only:
        return
    names = [n for n in sc.hooked.get('transposed', []) if '[F] ' + n in sc.e.funcs_run]
    done = part.__dict__.setdefault('verified', set())
    for n in names:
        if n in done:
            continue
        done.add(n)
        kernel(part, 'avx2 transposed' if 'compress8' in n else 'sse41 transposed', True, n)


def kernel1(part, name, flags, via=None):
    sc, fn, args, n, at, ins, hp = setup(part, name, flags)
    h, mw, c, f0, f1 = ins
    e = sc.e
    st0 = sc.sts[0][0]
    before = {oid: st0.mem[oid] for oid in sc.objs}
    conv = KERNELS[name][2]
    want = [spec.F(h[j], mw[j], c[j], f0[j], f1[j]) for j in range(n)]
    keep = writable(sc, name, hp)
    if via:
        # the function itself; replay goes through its public wrapper
        st0 = st0.copy()
        vecs = [I.Ptr(args[2].obj, 4 * n * i) for i in range(4)]
        if conv == 'blocks':
            ms = [e.load(st0, I.Ptr(args[1].obj, 8 * i), ('p',), 8) for i in range(n)]
            outs = e.run(via, st0, [hp] + ms + vecs)
        else:
            outs = e.run(via, st0, [hp, args[1]] + vecs)
    else:
        outs = e.run('@' + fn, st0.copy(), args)
    base = Trace(sc, [(fn, tuple(args))])
    if not part.panics(sc, name, base):
        raise Undecided('possible panic or memory fault')
    if not outs:
        raise Undecided('no final state')
    total = 0
    for st, _ in outs:
        for oid, d in sc.objs.items():
            if oid not in keep and oid in before and 'arr' not in d and st.mem[oid].data != before[oid].data:
                raise Undecided('%s writes to %s' % (name, d['name']))
        got = []
        for j in range(n):
            got += at(st, j)
        w = [x for ws in want for x in ws]
        if any(x is I.UNDEF for x in got):
            raise Undecided('undefined output')
        s = sweep.Sweep(e.smt, st.pc, log=part.log)
        try:
            bad = s.equal(got, w, None)
        except sweep.Diff as x:
            cexk(part, sc, name, base, x, ins, n, hp)
            raise Undecided('output word %d differs, but not natively' % x.i)
        part.log('%s: %d nodes merged by the solver, %d not, %d deeper' % (name, s.proved, s.failed, s.deeper))
        if bad:
            raise Undecided('%d of %d output words not shown equal' % (len(bad), len(w)))
        # the final verdict, on the merged circuits
        q = tm.disj([tm.ne(s.rep.get(a, a), s.rep.get(b, b), 32) for a, b in zip(got, w)])
        ok, _ = e.prove(st, tm.not_(q))
        if not ok:
            raise Undecided('final query')
        total += s.proved
    part.ok('%s: all %d output words equal F (%d paths, %d inner equalities shown by the solver)' % (name, 8 * n, len(outs), total))
    part.bounds.append('%s: every chaining value, block, 64-bit counter and %s, every lane' % (name, 'flag pair the hash functions use' if flags else 'flag word'))
    part.samples.append('%s: sweep over %d lanes, %d solver-proved node equalities' % (name, n, total))


def writable(sc, name, hp):
    conv = KERNELS[name][2]
    if conv == 'many':
        return [oid for oid, d in sc.objs.items() if d['name'][0] == 'h' and d['name'] != 'hp']
    return [hp.obj]


def cexk(part, sc, name, base, x, ins, n, hp):
    """replay with the inputs of x; the oracle is F on numbers"""
    env = x.env
    h, mw, c, f0, f1 = ins
    val = env.val
    conv = KERNELS[name][2]
    outs = []
    for j in range(n):
        outs.append(spec.F([val(a) for a in h[j]], [val(a) for a in mw[j]], val(c[j]), val(f0[j]), val(f1[j])))
    t = base.copy()
    if conv == 'one':
        t.want(kind='bytes', at=hp, want=le(outs[0]))
    elif conv == 'many':
        for j in range(8):
            t.want(kind='bytes', at=ptr(sc, 'h%d' % j), want=le(outs[j]))
    else:
        t.want(kind='bytes', at=hp, want=le([outs[j][i] for i in range(8) for j in range(n)]))
    s = t.script(env, True, part.prop, name, getattr(part, 'std', True))
    if part.only == 'configs':
        # a difference between configurations only if another kernel gives F here
        j = x.i // 8
        other = 'sse41' if name == 'portable' else 'portable'
        m = le([val(a) for a in mw[j]])
        o = dict(property=part.prop, what=name, std=True, arrays=dict(m=dict(len=64, align=0, bytes={str(i): b for i, b in enumerate(m)})),
                 objs=dict(h=dict(size=32, align=4, words=[val(a) for a in h[j]], w=32)), cpu={},
                 steps=[dict(fn='h_k1_' + other, args=[dict(at='h'), dict(at='m'), val(c[j]), val(f0[j]), val(f1[j])])],
                 expect=[dict(kind='bytes', at=dict(at='h'), want=le(outs[j]))])
        if not part.agrees(o):
            return
    part.confirm('%s differs from F in lane %d, word %d' % (name, x.i // 8, x.i % 8), [s])


def ptr(sc, name):
    return [I.Ptr(oid, 0) for oid, d in sc.objs.items() if d['name'] == name][0]


def le(ws):
    return [b for w in ws for b in w.to_bytes(4, 'little')]
