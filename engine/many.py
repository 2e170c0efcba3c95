"""Parts about the eight-lane interfaces: update8/finalize8, hash8, hash8_exact, hash4_exact."""
import terms as tm
from terms import T, add, sub, eq, ne, ite, ule, ult, not_, ext, sel, and_, or_
import interp as I
import stream as S
import inv
import canon
import kern
import spec
import sweep
import single as G
from single import v, MAXLEN, abstract
from chk import Trace, Undecided


class Lane(object):
    """one State of the eight, with its own parameters, message and reference"""

    def __init__(self, lanes, i, key, kind='all', ab=None):
        sc = lanes.sc
        self.i = i
        self.par = G.Params(sc, str(i), kind, key, 'm%d' % i)
        if ab:
            self.a, self.b = ab
            self.n = sum(ab)
        else:
            self.n = sc.length('n%d' % i, hi=MAXLEN)
            self.a = sc.length('a%d' % i, hi=MAXLEN)
            self.b = sc.length('b%d' % i, hi=MAXLEN)
            sc.assume(ule(add(self.a, self.b, 64), MAXLEN, 64))
        self.m = 'm%d' % i
        self.mn = sc.arr(self.m, self.n)
        self.mab = sc.arr(self.m, add(self.a, self.b, 64))
        self.s = sc.obj('s%d' % i, 'State')
        self.p = sc.obj('p%d' % i, 'Params')
        self.str = sc.layer.add(S.Stream('s%d' % i, self.par.free_words('s%d' % i), self.par.free_byte(self.m)))

    def construct(self):
        return self.par.build(self.p) + [('h_p_to_state', (self.p, self.s))]

    def digest(self, n):
        return S.wbytes(self.str.d(add(n, self.par.koff, 64), self.par.last))


class Lanes(object):
    def __init__(self, part, keys, kind='all', name='lanes', ab=None):
        self.part = part
        sc = self.sc = part.scenario(name, unroll=70)
        self.e = sc.e
        self.e.must_close = True
        self.h = sc.obj('h', 'Hash')
        self.h8 = sc.obj('h8', 'Hash', 8)
        self.lanes = [Lane(self, i, k, kind, ab and (ab[0][i], ab[1][i])) for i, k in enumerate(keys)]
        L = self.lanes
        self.sp = sc.data('sp', [l.s for l in L])
        self.mp = sc.data('mp', [I.Ptr(l.mab.obj, l.a) for l in L])
        self.np = sc.data('np', [l.b for l in L])
        self.base = sc.sts[0][0]
        self.hs = sc.size['Hash']

    def hp(self, i):
        return I.Ptr(self.h8.obj, i * self.hs)

    def run(self, calls, st):
        sts = [st.copy()]
        for fn, args in calls:
            nxt = []
            for x in sts:
                for y, _ in self.e.run('@' + fn, x, [1 if a is True else 0 if a is False else a for a in args]):
                    nxt.append(y)
            sts = nxt
        return sts

    def merge(self, sts):
        self.sc.sts = [(x, {}) for x in sts]
        self.sc.merge()
        return [x for x, _ in self.sc.sts]

    # ------------------------------------------------------------ references
    def refs(self):
        sc = self.sc
        for l in self.lanes:
            l.lens = {l.m: l.n}
            tr = self.trace([('h_s_update', (l.s, l.mn, l.n)), ('h_s_finalize', (l.s, self.h))], [l], {l.m: l.n})
            tr.want(kind='digest', hash=self.h, **l.par.oracle([[l.m, 0, l.n]]))
            sc.hint_traces = [tr]
            sts = self.merge(self.run(l.construct(), self.base))
            for x in sts:
                if abstract(sc, x, l.s, l.par, l.par.words(), 's%d' % l.i) < (2 if l.par.key else 1):
                    self.part.cex('construction', [tr], sc, x, [])
                    raise Undecided('the new state does not hold the specified parameter words and key block')
            l.fresh = [x.copy() for x in sts]
            out = []
            for x in sts:
                for y, _ in self.e.run('@h_s_update', x, [l.s, l.mn, l.n]):
                    out.append(y)
            out = self.merge(out)
            if not self.part.panics(sc, 'construct and update', tr):
                raise Undecided('possible panic')
            R = inv.Ref(sc, l.s, (l.n,), 's%d' % l.i)
            R.record(self.base.pc, out)
            l.R = None
            for lazy in (True, False):
                cs = canon.block_cases(l.n, l.par.koff, l.str, lazy, single=True)
                r = canon.fit(sc, R, l.n, cs, l.str)
                if r is not None and canon.covered(self.e, l.n, MAXLEN, cs, l.par.koff, lazy, single=True):
                    l.R = r
                    break
            if l.R is None:
                raise Undecided('no closed form for the state after n bytes')
        self.part.ok('reference states of the eight lanes')

    def enter(self, lens):
        """states in which lane i is R_i(lens[i])"""
        return inv.enter(self.sc, self.base, [(l.R, (n,)) for l, n in zip(self.lanes, lens)])

    # ------------------------------------------------------------ replay
    def trace(self, steps, lanes=None, lens=None):
        lanes = lanes or self.lanes
        c = []
        for l in lanes:
            c += l.construct()
        return Trace(self.sc, c + list(steps), lens=lens or {l.m: add(l.a, l.b, 64) for l in lanes})

    def traces8(self):
        """update each by a, update8 by b, then finalize by both ways, and more input"""
        L = self.lanes
        up = [('h_s_update', (l.s, l.mab, l.a)) for l in L] + [('h_update8', (self.sp, self.mp, self.np))]
        t1 = self.trace(up + [('h_finalize8', (self.sp, self.h8))])
        for l in L:
            t1.want(kind='digest', hash=self.hp(l.i), **l.par.oracle([[l.m, 0, add(l.a, l.b, 64)]]))
        out = [t1]
        fin = [('h_s_finalize', (l.s, self.hp(l.i))) for l in L]
        t2 = self.trace(up + fin)
        t2.expect = list(t1.expect)
        out.append(t2)
        for more in (1, 130):
            lens = {l.m: add(add(l.a, l.b, 64), more, 64) for l in L}
            u2 = [('h_s_update', (l.s, I.Ptr(l.mab.obj, add(l.a, l.b, 64)), more)) for l in L]
            t3 = self.trace(up + u2 + fin, None, lens)
            for l in L:
                t3.want(kind='digest', hash=self.hp(l.i), **l.par.oracle([[l.m, 0, lens[l.m]]]))
            out.append(t3)
        return out

    def tracesf(self):
        """update each by a, finalize8 twice, more input, finalize"""
        L = self.lanes
        la = {l.m: l.a for l in L}
        up = [('h_s_update', (l.s, l.mab, l.a)) for l in L]
        f8 = ('h_finalize8', (self.sp, self.h8))
        fin = [('h_s_finalize', (l.s, self.hp(l.i))) for l in L]
        out = []
        for more in (None, 'again', 'single', 1, 130):
            x = more if type(more) is int else 0
            u2 = [('h_s_update', (l.s, I.Ptr(l.mab.obj, l.a), x)) for l in L] if x else []
            steps = up + [f8]
            if more == 'again':
                steps += [f8]
            elif more is not None:
                steps += u2 + fin
            t = self.trace(steps, None, {l.m: add(l.a, x, 64) for l in L})
            for l in L:
                t.want(kind='digest', hash=self.hp(l.i), **l.par.oracle([[l.m, 0, add(l.a, x, 64)]]))
            out.append(t)
        return out

    # ------------------------------------------------------------ obligations
    def direct(self):
        """construct, update(a), update8(b), finalize8, run as they are"""
        sc = self.sc
        L = self.lanes
        ts = self.traces8()
        sc.hint_traces = ts
        sts = [self.base]
        for l in L:
            nxt = []
            for st in sts:
                nxt += self.run(l.construct(), st)
            sts = self.merge(nxt)
            for x in sts:
                if abstract(sc, x, l.s, l.par, l.par.words(), 's%d' % l.i) < (2 if l.par.key else 1):
                    raise Undecided('the new state does not hold the specified parameter words and key block')
        calls = [('h_s_update', (l.s, l.mab, l.a)) for l in L] + [('h_update8', (self.sp, self.mp, self.np)), ('h_finalize8', (self.sp, self.h8))]
        for c in calls:
            nxt = []
            for st in sts:
                nxt += self.run([c], st)
            sts = self.merge(nxt)
            if not self.part.panics(sc, c[0], ts):
                raise Undecided('possible panic')
        if not sts:
            raise Undecided('no state left')
        for st in sts:
            for l in L:
                self.check_digest(st, l, add(l.a, l.b, 64), ts)

    def close(self, name, gen, traces):
        """gen yields (state, lens): every lane has to be R_i(lens[i])"""
        part = self.part
        self.sc.hint_traces = traces
        for rnd in range(8):
            bad = False
            got = 0
            try:
                for st, lens in gen():
                    got += 1
                    for l, n in zip(self.lanes, lens):
                        if n is None:
                            continue
                        ok, ix = inv.same(self.sc, st, l.R, (n,))
                        if not ok:
                            bad = True
                            l.R.weaken(ix)
            except inv.NotClosed as x:
                part.log('not closed: %s: %s' % (name, x.what))
                part.cex(name, traces, self.sc, x.st, x.conds)
                raise Undecided('%s: %s' % (name, x.what))
            if not part.panics(self.sc, name, traces):
                raise Undecided('possible panic')
            if not got:
                raise Undecided('%s: no state reached' % name)
            if not bad:
                part.ok(name)
                return rnd
        raise Undecided('%s: the reference representation does not close' % name)

    def fresh(self):
        def f():
            for l in self.lanes:
                for x in l.fresh:
                    yield x.copy(), [0 if k is l else None for k in self.lanes]
        ts = []
        for l in self.lanes[:2]:
            t = self.trace([('h_s_finalize', (l.s, self.h))], [l], {l.m: 0})
            ts.append(t.want(kind='digest', hash=self.h, **l.par.oracle([[l.m, 0, 0]])))
        return self.close('new states are R(0)', f, ts)

    def update8(self):
        def f():
            for st in self.enter([l.a for l in self.lanes]):
                for x, _ in self.e.run('@h_update8', st, [self.sp, self.mp, self.np]):
                    yield x, [add(l.a, l.b, 64) for l in self.lanes]
        return self.close('update8(b) takes every lane from R(a) to R(a+b)', f, self.traces8())

    def finalize8(self):
        ts = self.tracesf()

        def f():
            for st in self.enter([l.a for l in self.lanes]):
                for x, _ in self.e.run('@h_finalize8', st, [self.sp, self.h8]):
                    for l in self.lanes:
                        self.check_digest(x, l, l.a, ts)
                    yield x, [l.a for l in self.lanes]
        return self.close('finalize8 gives the digest of every lane and keeps R(a)', f, ts)

    def singles(self):
        """the one-lane calls on lanes 0 and 1"""
        r = 0
        for l in self.lanes[:2]:
            only = lambda n: [n if k is l else None for k in self.lanes]

            def ent():
                return inv.enter(self.sc, self.base, [(l.R, (l.a,))])

            def f():
                for st in ent():
                    for x, _ in self.e.run('@h_s_update', st, [l.s, I.Ptr(l.mab.obj, l.a), l.b]):
                        yield x, only(add(l.a, l.b, 64))

            def g():
                for st in ent():
                    for x, _ in self.e.run('@h_s_finalize', st, [l.s, self.hp(l.i)]):
                        self.check_digest(x, l, l.a, [tf])
                        yield x, only(l.a)
            ab = add(l.a, l.b, 64)
            tu = self.trace([('h_s_update', (l.s, l.mab, l.a)), ('h_s_update', (l.s, I.Ptr(l.mab.obj, l.a), l.b)), ('h_s_finalize', (l.s, self.hp(l.i)))], [l], {l.m: ab})
            tu.want(kind='digest', hash=self.hp(l.i), **l.par.oracle([[l.m, 0, ab]]))
            tf = self.trace([('h_s_update', (l.s, l.mab, l.a)), ('h_s_finalize', (l.s, self.hp(l.i)))], [l], {l.m: l.a})
            tf.want(kind='digest', hash=self.hp(l.i), **l.par.oracle([[l.m, 0, l.a]]))
            r += self.close('update alone takes lane %d from R(a) to R(a+b)' % l.i, f, [tu])
            r += self.close('finalize alone gives the digest of lane %d and keeps R(a)' % l.i, g, [tf])
        return r

    def check_digest(self, st, l, n, traces):
        sc = self.sc
        part = self.part
        st2, ln, p = sc.hash_of(st.copy(), self.hp(l.i))
        hl = l.par.hl()
        part.prove_quiet('digest length of lane %d' % l.i, sc, st2, eq(ln, hl, 64), traces)
        bb = sc.bytes(st2, p, 32)
        conds = []
        for k, (x, y) in enumerate(zip(bb, l.digest(n))):
            c = not_(S.diff8(x, y, 0)) if x is not None else 0
            if type(hl) is T:
                c = or_(ule(hl, k, 64), c, 1)
            conds.append(c)
        part.prove_quiet('digest of lane %d' % l.i, sc, st2, tm.conj(conds), traces)


def lanes8(part, keys, kind='all'):
    """update8 and finalize8 on eight states of any history"""
    L = Lanes(part, keys, kind)
    L.refs()
    for rnd in range(6):
        # a reference that had to be weakened has to close everywhere
        if not (L.fresh() + L.singles() + L.update8() + L.finalize8()):
            return
    raise Undecided('the reference representations do not close')


# ---------------------------------------------------------------- one call on many inputs

class Job(object):
    """one call that hashes `k` inputs of their own lengths, with parameters of their own or common ones"""

    def __init__(self, part, fn, k, keys, ns, common=False, kind='all', name=None, **kw):
        self.part = part
        sc = self.sc = part.scenario(name or fn, **kw)
        sc.e.must_close = True
        self.k = k
        self.pars = [G.Params(sc, '' if common else str(i), kind, keys[i], 'm%d' % i) for i in range(1 if common else k)]
        self.par = lambda i: self.pars[0 if common else i]
        if ns is None:
            ns = [sc.length('n%d' % i, hi=MAXLEN) for i in range(k)]
        elif ns == 'blocks':
            q = sc.length('q', hi=MAXLEN >> 6)
            sc.assume(ule(1, q, 64))
            ns = [tm.mul(q, 64, 64)] * k
        self.ns = ns
        self.m = [sc.arr('m%d' % i, n) for i, n in enumerate(ns)]
        self.p = [sc.obj('p%d' % i, 'Params') for i in range(len(self.pars))]
        self.h = sc.obj('h', 'Hash', k)
        mp = sc.data('mp', self.m)
        np = sc.data('np', ns)
        pp = self.p[0] if common else sc.data('pp', self.p)
        self.call = (fn, (pp, mp, np, self.h))
        self.hs = sc.size['Hash']
        self.str = []
        for i in range(k):
            q = self.par(i)
            self.str.append(sc.layer.add(S.Stream('s%d' % i, q.words(), q.byte('m%d' % i))))
            if common and keys[0] and i:
                self.str[i].share(self.str[0])
        self.steps = sum([q.build(p) for q, p in zip(self.pars, self.p)], [])
        self.trace = Trace(sc, self.steps + [self.call], lens={'m%d' % i: n for i, n in enumerate(ns)})

    def hp(self, i):
        return I.Ptr(self.h.obj, i * self.hs)

    def want(self):
        for i in range(self.k):
            self.trace.want(kind='digest', hash=self.hp(i), **self.par(i).oracle([['m%d' % i, 0, self.ns[i]]]))
        return self.trace

    def run(self):
        sc, part = self.sc, self.part
        for fn, args in self.steps:
            sc.call(fn, *args)
        if not part.panics(sc, 'parameters', Trace(sc, self.steps)):
            raise Undecided('possible panic')
        tr = self.want()
        sc.hint_traces = [tr]
        if len(sc.sts) == 1:
            sc.layer.base = sc.sts[0][0].pc
        sc.call(*((self.call[0],) + self.call[1]))
        if not part.panics(sc, self.call[0], tr):
            raise Undecided('possible panic')
        if not sc.sts:
            raise Undecided('no state left')
        for i in range(self.k):
            q = self.par(i)
            for st, vals in sc.sts:
                for st in inv.cases(sc.e, st.copy(), self.h.obj):
                    st2, ln, p = sc.hash_of(st, self.hp(i))
                    hl = q.hl()
                    part.prove_quiet('digest length of input %d' % i, sc, st2, eq(ln, hl, 64), [tr])
                    bb = sc.bytes(st2, p, 32)
                    want = S.wbytes(self.str[i].d(add(self.ns[i], q.koff, 64), q.last))
                    conds = []
                    for j, (x, y) in enumerate(zip(bb, want)):
                        c = not_(S.diff8(x, y, 0)) if x is not None else 0
                        if type(hl) is T:
                            c = or_(ule(hl, j, 64), c, 1)
                        conds.append(c)
                    part.prove_quiet('digest of input %d' % i, sc, st2, tm.conj(conds), [tr])

    def must_panic(self, what):
        """no path may return"""
        sc, part = self.sc, self.part
        for fn, args in self.steps:
            sc.call(fn, *args)
        if not part.panics(sc, 'parameters', Trace(sc, self.steps)):
            raise Undecided('possible panic')
        tr = self.trace.copy().want(kind='panic')

        def trip(st):
            part.cex(what, [tr], sc, st, [])
            raise Undecided('%s: hashes where a panic is due' % what)
        sc.layer.trip = trip
        sc.call(*((self.call[0],) + self.call[1]))
        bad = [x for x in sc.e.panics if x[0] != 'panic']
        if bad:
            sc.e.panics[:] = bad
            part.panics(sc, what, tr)
            raise Undecided('memory fault before the panic')
        del sc.e.panics[:]
        for st, vals in sc.sts:
            part.cex(what, [tr], sc, st, [])
            raise Undecided('returns where a panic is due')


def hash8(part, ns=None, label='every length'):
    """hash8 with parameters and lengths of each input of its own"""
    j = Job(part, 'h_hash8', 8, [None] * 8, ns, name='hash8 ' + label)
    j.run()
    part.ok('hash8 digests: %s' % label)


def hash8_fixed(part):
    sets = [[0] * 8, [64] * 8, [1, 0, 64, 65, 128, 63, 127, 2], [128] * 8, [129, 128, 200, 192, 300, 130, 191, 129], [64, 64, 64, 64, 64, 64, 64, 65], [128] * 7 + [64], [192] * 3 + [193] + [192] * 4]
    for ns in sets:
        Job(part, 'h_hash8', 8, [None] * 8, ns, name='hash8 %s' % ns).run()
    part.bounds.append('fixed lengths: %s' % sets)
    part.ok('hash8 digests: lengths %s' % sets)


def hash8_keyed(part):
    for i in range(8):
        keys = [None] * 8
        keys[i] = True
        Job(part, 'h_hash8', 8, keys, [65] * 8, name='hash8 key %d' % i).must_panic('hash8 with a key in parameter set %d' % i)
    part.bounds.append('keyed parameter sets: input lengths 65; one key at a time')
    part.ok('hash8 refuses any key in any parameter set')


def fixed8(part, keys, kind='all'):
    """the last resort for update8/finalize8: fixed lengths, contents and parameters symbolic"""
    sets = [([0] * 8, [0] * 8), ([0] * 8, [1] * 8), ([0] * 8, [64] * 8), ([0] * 8, [65] * 8), ([0] * 8, [129, 130, 200, 193, 128, 140, 150, 160]),
            ([1, 63, 64, 2, 0, 64, 65, 130], [130, 129, 65, 64, 128, 300, 0, 190]), ([64] * 8, [128] * 8), ([64, 0] * 4, [64, 65] * 4), ([3] * 8, [200] * 4 + [0] + [200] * 3)]
    for a, b in sets:
        L = Lanes(part, keys, kind, 'lanes %s + %s' % (a, b), (a, b))
        L.direct()
    part.bounds.append('fixed lengths: update then update8: %s' % sets)
    part.ok('update8 and finalize8 on fixed lengths')


# ---------------------------------------------------------------- exact functions

def exact(part, k, key=None, ns=None):
    """hash4_exact/hash8_exact where they have to work: one length, a positive multiple of the block length"""
    fn = 'h_hash%d_exact' % k
    kn = 'keyed' if key else 'unkeyed'
    if ns is None:
        j = Job(part, fn, k, [key] * k, 'blocks', common=True, name='%s %s' % (fn, kn))
    else:
        j = Job(part, fn, k, [key] * k, [ns] * k, common=True, name='%s %s %d' % (fn, kn, ns))
    j.run()
    kern.verify(part, j.sc)
    part.ok('%s %s: %s' % (fn, kn, 'every number of blocks' if ns is None else 'length %d' % ns))


def exact_fixed(part, k, key=None):
    for ns in (64, 128, 256):
        exact(part, k, key, ns)


def exact_sweep(part, k, blocks=1):
    """no kernel is routed anywhere: the digests of `blocks` blocks against BLAKE2s over all contents"""
    tm.RAW[0] = True
    try:
        exact_sweep1(part, k, blocks)
    finally:
        tm.RAW[0] = False


def exact_sweep1(part, k, blocks):
    fn = 'h_hash%d_exact' % k
    n = 64 * blocks
    j = Job(part, fn, k, [None] * k, [n] * k, common=True, kind='default', name='%s sweep' % fn, hook=False, merge=False)
    sc = j.sc
    par = j.par(0)
    for f, args in j.steps + [j.call]:
        sc.call(f, *args)
        if not part.panics(sc, f, j.trace):
            raise Undecided('possible panic')
    tr = j.want()
    if not sc.sts:
        raise Undecided('no state left')
    want = []
    M = 0xffffffff
    for i in range(k):
        h = par.words()
        for b in range(blocks):
            fin = b == blocks - 1
            mw = [tm.cat([(sel('m%d' % i, 64 * b + 4 * w + x), 8) for x in range(4)]) for w in range(16)]
            h = spec.F(h, mw, 64 * (b + 1), M if fin else 0, tm.sext(par.last, 1, 32) if fin else 0)
        want += h
    for st, _ in sc.sts:
        got = []
        for i in range(k):
            st, ln, p = sc.hash_of(st, j.hp(i))
            part.prove_quiet('digest length', sc, st, eq(ln, 32, 64), [tr])
            bb = sc.bytes(st, p, 32)
            if any(x is None for x in bb):
                raise Undecided('undefined digest byte')
            got += [tm.cat([(x, 8) for x in bb[4 * w:4 * w + 4]]) for w in range(8)]
        s = sweep.Sweep(sc.e.smt, st.pc, log=part.log)
        try:
            bad = s.equal(got, want, None)
        except sweep.Diff as x:
            part.confirm('digest of input %d differs' % (x.i // 8), [tr.script(x.env, True, part.prop, sc.name, getattr(part, 'std', True))])
            raise Undecided('digest of input %d differs, but not natively' % (x.i // 8))
        if bad:
            raise Undecided('%d of %d digest words not shown equal' % (len(bad), len(want)))
        q = tm.disj([tm.ne(s.rep.get(a, a), s.rep.get(b, b), 32) for a, b in zip(got, want)])
        if not sc.e.prove(st, not_(q))[0]:
            raise Undecided('final query')
    part.bounds.append('%s, unkeyed, %d block(s) with the kernels executed: all contents, default parameters' % (fn, blocks))
    part.ok('%s: %d digests of %d block(s) equal BLAKE2s, kernels included (%d paths)' % (fn, k, blocks, len(sc.sts)))


def exact_refuse(part, k, key=None):
    """every other combination of lengths panics"""
    fn = 'h_hash%d_exact' % k
    j = Job(part, fn, k, [key] * k, None, common=True, name='%s refuses' % fn)
    ns = j.ns
    good = tm.conj([eq(n, ns[0], 64) for n in ns[1:]] + [ne(ns[0], 0, 64), eq(ext(ns[0], 0, 6), 0, 6)])
    j.sc.assume(not_(good))
    j.must_panic('%s on any other lengths' % fn)
    part.ok('%s refuses any other lengths (%s)' % (fn, 'keyed' if key else 'unkeyed'))
