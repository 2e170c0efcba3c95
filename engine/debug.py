"""Parts about Debug output (P19): what reaches the writer is made of public values only."""
import terms as tm
from terms import T, eq, ule, or_, and_, add, lshr, not_
import interp as I
import single as G
import tree as TR
import fmtlib
import hashes
from chk import Trace, Undecided

SECRET = ('m', 'key', 'x0')


def secret(leaf):
    """input bytes, key bytes, chaining values and digests"""
    if type(leaf) is not str:
        return True
    if leaf[0] == '@':
        return leaf[1:] in SECRET
    return leaf.startswith(('iv!', 'hv!', 'D!'))


def tainted(x):
    return type(x) is T and any(secret(l) or l.startswith('$') for l in tm.leaves(x))


class Twin(object):
    """the same calls on other objects and other secrets"""

    def __init__(self, sc, arrays, objs):
        self.sc = sc
        self.map = {}
        for nm in arrays:
            if nm in sc.arrays:
                oid = next(o for o, d in sc.objs.items() if d.get('arr') == nm)
                b = sc.arr(nm + '!b', sc.arrays[nm])
                for o, d in list(sc.objs.items()):
                    if d.get('arr') == nm:
                        self.map[o] = b.obj
        for p, kind in objs:
            q = sc.obj(sc.objs[p.obj]['name'] + '!b', kind)
            self.map[p.obj] = q.obj

    def calls(self, calls):
        out = []
        for fn, args in calls:
            out.append((fn, tuple(I.Ptr(self.map.get(a.obj, a.obj), a.off) if type(a) is I.Ptr else a for a in args)))
        return out


def rename(x):
    """the same term over the other secrets"""
    if type(x) is not T:
        return x
    m = {}
    for t in tm.topo([x]):
        if t.op == 'sel' and t.args[0] in SECRET:
            m[t] = None
        elif t.op == 'uf':
            m[t] = tm.var('other!%d' % id(t), t.w)
    for t in list(m):
        if m[t] is None:
            m[t] = tm.sel(t.args[0] + '!b', tm.subst(t.args[1], {k: v for k, v in m.items() if v is not None}))
    return tm.subst(x, m)


def differ(part, sc, what, st, conds, traces):
    """can the texts differ while everything public is the same?"""
    e = sc.e
    r, env = e.smt.check(list(st.pc) + [rename(c) for c in st.pc if tainted(c)] + conds, True)
    if r == 'unsat':
        return
    part.cex(what, traces, sc, st, [rename(c) for c in st.pc if tainted(c)] + conds)
    raise Undecided('%s: the text may depend on secrets' % what)


def judge(part, sc, what, pre, outs, traces):
    """pre: path condition before formatting; outs: states after it"""
    for st in outs:
        for pc in st.out:
            vals = pc[1] if pc[0] == 's' else [pc[2]]
            for v in vals:
                v = sc.e.norm(st, v) if type(v) is T else v
                if tainted(v):
                    differ(part, sc, what, st, [tm.ne(v, rename(v), v.w)], traces)
    for a in outs:
        for b in outs:
            if a.out == b.out:
                continue
            if any(tainted(c) for c in a.pc + b.pc if c not in pre):
                x = a.copy()
                x.pc = tuple(c for c in a.pc)
                r, env = sc.e.smt.check(list(a.pc) + [rename(c) for c in b.pc], True)
                if r != 'unsat':
                    part.cex(what, traces, sc, a, [rename(c) for c in b.pc])
                    raise Undecided('%s: the text may depend on secrets' % what)
    if not outs:
        raise Undecided('%s does not return' % what)
    if not any(st.out for st in outs):
        raise Undecided('%s: no text seen' % what)


def show(part, sc, fn, args, traces):
    """run a formatting call in all states of sc and judge the text"""
    md = fmtlib.Model(sc.e)
    n = 0
    for st, _ in sc.sts:
        st = st.copy()
        st.out = ()
        md.sink = None
        pre = set(st.pc)
        try:
            outs = [x for x, _ in sc.e.run('@' + fn, st, list(args))]
        except I.Unsupported as x:
            part.cex('%s (%s)' % (fn, x), traces, sc, st, [])
            raise
        if not part.panics(sc, fn, traces):
            raise Undecided('possible panic')
        judge(part, sc, fn, pre, outs, traces)
        n += len(outs)
    return n


def traces(sc, tw, lens, calls, fn, obj, bufs):
    """both histories and both texts"""
    out = []
    t = Trace(sc, list(calls), lens=lens)
    a = t.call(fn, obj, bufs[0], 4096)
    t.steps += tw.calls(calls)
    (_, (o2,)), = tw.calls([(fn, (obj,))])
    b = t.call(fn, o2, bufs[1], 4096)
    t.want(kind='text', step=a, at=bufs[0], other=[b, bufs[1]])
    u = t.copy()
    u.steps.append(('!repeat', dict(times=2000, arrays=[x for x in lens if x.endswith('!b')] + (['key!b'] if 'key!b' in sc.arrays else []), first=a + 1, last=b, a=[a, bufs[0]], b=[b, bufs[1]])))
    return [t, u]


def history(part, how='new', kind='default', key=None, lastvar=False):
    """R(n) of the sequential state, any n"""
    h = G.Hist(part, how, kind, key, lastvar)
    h.ref()
    sc = h.sc
    h.obligations([h.new_is_R0(), h.step(), h.finalize()])
    objs = [(h.s, 'State'), (h.h, 'Hash'), (h.p, 'Params')]
    tw = Twin(sc, ('m', 'key'), objs)
    bufs = [sc.obj('buf%d' % i, (4096, 1)) for i in range(2)]
    L = {'m': h.a, 'm!b': h.a}
    up = h.construct() + [('h_s_update', (h.s, h.ma, h.a))]
    ts = []
    for calls in (up, up + [('h_s_finalize', (h.s, h.h))]):
        ts += traces(sc, tw, L, calls, 'h_s_fmt', h.s, bufs)
    sc.sts = [(st, {}) for st in h.enter(h.a)]
    for st, _ in sc.sts:
        fix(sc, st, bufs)
    show(part, sc, 'h_s_fmt', (h.s, bufs[0], 4096), ts)
    part.bounds.append('total message length <= 2^56 bytes, any history of updates and finalizations')
    part.ok('Debug of a State shows no secret (%s%s)' % (how, ', keyed' if key else ''))


def fix(sc, st, ptrs):
    """objects made after the base state was taken"""
    for p in ptrs:
        if p.obj not in st.mem:
            d = sc.objs[p.obj]
            o = I.Obj(d['size'], d['align'], (p.obj << 36) + min(d['align'], 64), d['name'], 'heap')
            o.data = [None] * d['size']
            o.owner = st.tok
            st.mem[p.obj] = o


def chain(part, how='new', kind='default', key=None):
    for ns in ((), (1,), (64,), (64, 1), (70, 130)):
        sc = part.scenario('debug %s' % (ns,))
        par = G.Params(sc, '', kind, key)
        m = sc.arr('m', sum(ns))
        s, h, p = sc.obj('s', 'State'), sc.obj('h', 'Hash'), sc.obj('p', 'Params')
        sc.layer.add(G.S.Stream('s', par.words(), par.byte('m')))
        tw = Twin(sc, ('m', 'key'), [(s, 'State'), (h, 'Hash'), (p, 'Params')])
        bufs = [sc.obj('buf%d' % i, (4096, 1)) for i in range(2)]
        calls = [('h_s_%s' % how, (s,))] if how in ('new', 'default') else par.build(p) + [('h_p_to_state', (p, s))]
        pos = 0
        done = []
        for k in range(len(ns) + 1):
            for fn, args in calls:
                done.append((fn, args))
                sc.call(fn, *args)
                if not part.panics(sc, fn, Trace(sc, done, lens={'m': sum(ns)})):
                    raise Undecided('possible panic')
            show(part, sc, 'h_s_fmt', (s, bufs[0], 4096), traces(sc, tw, {'m': sum(ns), 'm!b': sum(ns)}, done, 'h_s_fmt', s, bufs))
            if k < len(ns):
                calls = [('h_s_update', (s, I.Ptr(m.obj, pos), ns[k])), ('h_s_finalize', (s, h))]
                pos += ns[k]
    part.bounds.append('fixed lengths')
    part.ok('Debug of a State after fixed histories')


def tree(part, key=None, lens=((1,), (512,), (1024, 1), (700, 900))):
    for ns in lens:
        t = TR.Tree(part, key, True, 'debug tree %s' % (ns,))
        sc = t.sc
        total = sum(ns)
        m = sc.arr('m', total)
        tw = Twin(sc, ('m', 'key'), [(t.s, 'SpState'), (t.h, 'Hash'), (t.p, 'SpParams')])
        bufs = [sc.obj('buf%d' % i, (4096, 1)) for i in range(2)]
        done = []
        L = {'m': total, 'm!b': total}

        def do(fn, *args):
            done.append((fn, args))
            sc.call(fn, *args)
            if not part.panics(sc, fn, Trace(sc, list(done), lens=L)):
                raise Undecided('possible panic')

        def look(fn, obj):
            show(part, sc, fn, (obj, bufs[0], 4096), traces(sc, tw, L, list(done), fn, obj, bufs))
        cs = t.construct()
        for fn, args in cs[:-1]:
            do(fn, *args)
        look('h_sp_p_fmt', t.p)
        do(cs[-1][0], *cs[-1][1])
        look('h_sp_fmt', t.s)
        for st, vals in sc.sts:
            if not t.abstract(st):
                raise Undecided('the new state does not hold the specified parameter words and key blocks')
        pos = 0
        for n in ns:
            do('h_sp_update', t.s, I.Ptr(m.obj, pos), n)
            pos += n
            look('h_sp_fmt', t.s)
            t.digest(pos)
            do('h_sp_finalize', t.s, t.h)
            look('h_sp_fmt', t.s)
    part.bounds.append('tree updates of lengths %s; key, hash length and contents symbolic' % (lens,))
    part.ok('Debug of a tree State and of its Params shows no secret (%s)' % ('keyed' if key else 'unkeyed'))


def hexdebug(part):
    """Debug of a Hash is Hash(0x...), its hex form"""
    a = hashes.Any(part, 'Debug of a hash')
    sc = a.sc
    h, hl = a.h[0], a.hl[0]
    buf = sc.obj('buf', (4096, 1))
    tr = a.tr.copy()
    n = tr.call('h_h_fmt', h, buf, 4096)
    tr.want(kind='text', step=n, at=buf, hexof=h, wrap='Hash(0x%)')
    md = fmtlib.Model(sc.e, keep=True)
    dig = hashes.Digits(sc)
    for st, _ in sc.sts:
        st = st.copy()
        st.out = ()
        try:
            outs = sc.e.run('@h_h_fmt', st, [h, buf, 4096])
        except I.Unsupported as x:
            part.cex('Debug of a hash (%s)' % x, [tr], sc, st, [])
            raise
        if not part.panics(sc, 'h_h_fmt', tr):
            raise Undecided('possible panic')
        for s1, _ in outs:
            bs = []
            for p in s1.out:
                if p[0] != 's':
                    part.cex('Debug of a hash', [tr], sc, s1, [])
                    raise Undecided('Debug of a hash shows a number')
                bs += p[1]
            k = (len(bs) - 8) // 2
            conds = [1 if len(bs) == 8 + 2 * k and 1 <= k <= 32 else 0, eq(hl, k, 64)]
            if conds[0]:
                part.prove_quiet('length of the Debug text of a hash', sc, s1, conds[1], [tr])
                memo = {}
                bs = [tm.subst(b, {hl: k}, memo) for b in bs]
                want = list(b'Hash(0x')
                for j in range(k):
                    x = a.x(0, j)
                    want += [hashes.hexdigit(lshr(x, 4, 8)), hashes.hexdigit(and_(x, 15, 8))]
                want.append(41)
                conds += [dig.eq(x, y, a.x(0, (j - 7) // 2)) for j, (x, y) in enumerate(zip(bs, want))]
            part.prove_quiet('Debug text of a hash', sc, s1, tm.conj(conds), [tr])
    part.bounds.append('every length 1..32 and every content of a hash')
    part.ok('Debug of a hash is its hex form')
