"""Histories of the tree state, by induction over the calls.

After n bytes (N with the key blocks) the eight leaves have had q blocks each and the buffer holds the other
r = N - 512 q bytes.  How many bytes are still in the buffer depends on the history, so the reference state
R(n, q) has two arguments:

    construct             ~ R(0, 0)
    R(a, q); update(b)    ~ R(a + b, q')     for some q' read off the state
    R(n, q); finalize     ~ R(n, q), and the hash is the specified one
    R(n, q); count        ~ R(n, q), and the result is n

R is fitted to the states of a few concrete runs; it is only a candidate until the induction closes with it.
"""
import terms as tm
from terms import T, add, sub, mul, eq, ite, ule, ult, not_, ext, sel, and_, or_
import interp as I
import stream as S
import inv
import canon
import single as G
import tree as TR
from chk import Trace, Undecided

MAXLEN = 1 << 56
SEEN = ((0,), (1,), (63,), (64, 0), (448,), (449,), (511,), (512,), (600,), (960,), (960, 1), (960, 64), (961,), (1024, 1), (1409,), (1472,), (1473,), (1024, 448, 64),
        (1024, 447, 64), (2000,), (2048, 100), (960, 960, 960), (4096,))
RANGES = ((449, 1024), (1, 1024), (0, 1023), (1, 512), (0, 511))


class Byte(object):
    """the message behind the key blocks, as canon.fit wants it"""

    def __init__(self, koff):
        self.koff = koff

    def byte(self, i):
        return sel('m', sub(i, self.koff, 64) if type(i) is T else (i - self.koff) & tm.mask(64))


class Case(object):
    def __init__(self, conds, nums, blocks, bufs, data=None):
        self.conds, self.nums, self.blocks, self.bufs, self.data = conds, nums, blocks, bufs, data


class TreeHist(object):
    def __init__(self, part, key=None, sym=True, how='params', portable=False, name='tree history'):
        self.part = part
        t = self.t = TR.Tree(part, key, sym, name, how, unroll=70)
        sc = self.sc = t.sc
        e = self.e = sc.e
        e.must_close = True
        self.portable = portable
        self.koff = t.par.koff
        self.a = sc.length('a', hi=MAXLEN)
        self.b = sc.length('b', hi=MAXLEN)
        sc.assume(ule(add(self.a, self.b, 64), MAXLEN, 64))
        self.q = tm.var('q', 64)
        self.r = tm.var('r', 64)
        tm.BOUNDS['q'] = 1 << 48
        tm.BOUNDS['r'] = 1024
        self.n = tm.var('tn', 64)
        tm.BOUNDS['tn'] = MAXLEN
        self.s, self.h = t.s, t.h
        self.mab = sc.arr('m', add(self.a, self.b, 64))
        self.ma = sc.arr('m', self.a)
        self.seen = [sc.arr('m', sum(ns)) for ns in SEEN]
        sc.arrays['m'] = add(self.a, self.b, 64)
        self.base = sc.sts[0][0]
        self.byte = Byte(self.koff)

    # ------------------------------------------------------------ runs
    def go(self, calls, st=None):
        sts = [(st or self.base).copy()]
        for fn, args in calls:
            nxt = []
            for x in sts:
                for y, r in self.e.run('@' + fn, x, [1 if a is True else 0 if a is False else a for a in args]):
                    nxt.append(y)
            sts = nxt
        return sts

    def merge(self, sts):
        self.sc.sts = [(x, {}) for x in sts]
        self.sc.merge()
        return [x for x, _ in self.sc.sts]

    def construct(self):
        c = self.t.construct()
        if self.portable:
            c = c + [('h_sp_force_portable', (self.s,))]
        return c

    def trace(self, steps, lens, want=None):
        t = Trace(self.sc, self.construct() + list(steps), lens={'m': lens})
        if want is not None:
            t.want(kind='digest', hash=self.h, **self.t.par.oracle([['m', 0, want]]))
        return t

    # ------------------------------------------------------------ the reference
    def ref(self, rng):
        """fit R to concrete runs"""
        sc, part = self.sc, self.part
        koff = self.koff
        sts = self.merge(self.go(self.construct()))
        if len(sts) != 1 or not self.t.abstract(sts[0]):
            tr = [self.trace([('h_sp_update', (self.s, self.ma, k)), ('h_sp_finalize', (self.s, self.h))], k, k) for k in (0, 1100)]
            part.cex('construction', tr, sc, sts[0], [])
            raise Undecided('the new state does not hold the specified parameter words and key blocks')
        self.fresh = sts[0]
        views = ([], [])
        for ns, m in zip(SEEN, self.seen):
            tot = sum(ns)
            cur = [self.fresh]
            pos = 0
            tr = self.trace([], tot)
            for x in ns:
                call = ('h_sp_update', (self.s, I.Ptr(m.obj, pos), x))
                tr.call(call[0], *call[1])
                nxt = []
                for st in cur:
                    nxt += self.go([call], st)
                cur = self.merge(nxt)
                pos += x
            if not part.panics(sc, 'tree updates of lengths %s' % (ns,), tr):
                raise Undecided('possible panic')
            if not cur:
                raise Undecided('no state left')
            for st in cur:
                data = st.mem[self.s.obj].data
                q = self.blocks(data)
                if q is None:
                    raise Undecided('the leaves do not hold chaining values after updates of lengths %s' % (ns,))
                env = st.models[0] if st.models else None
                views[1 if q else 0].append((tot, data, env, {self.q: q, self.r: tot + koff - 512 * q}))
                break
        n, q, r = self.n, self.q, self.r
        N = add(n, koff, 64)
        live = lambda j: ult(j, r, 64)
        bufs = [(live, lambda j: add(mul(q, 512, 64), j, 64))]
        nums = [r, N, n, q, sub(1024, r, 64), mul(q, 64, 64), mul(q, 512, 64), 0]
        A = Case([eq(N, r, 64), ule(r, 1024, 64), eq(q, 0, 64)], nums, [q], bufs)
        lo, hi = rng
        B = Case([eq(N, add(mul(q, 512, 64), r, 64), 64), ule(1, q, 64), ule(q, 1 << 48, 64), ule(lo, r, 64), ule(r, hi, 64)], nums, [q], bufs)
        self.cases = []
        for c, vs in ((A, views[0]), (B, views[1])):
            vs = [v for v in vs if c is A or lo <= v[3][r] <= hi]
            if not vs:
                raise Undecided('no closed form for the tree state')
            c.data = self.fit(vs, c)
            self.cases.append(c)
        self.spot = None
        for i, x in enumerate(B.data):
            v = self.e.word(B.data, i, 4) if type(x) is tuple and x[1] == 0 and i + 4 <= len(B.data) else None
            if type(v) is T and v.op == 'uf' and v.args[0] == 'H:L0':
                self.spot = i
                break
        if self.spot is None:
            raise Undecided('no chaining value of leaf 0 in the tree state')

    def blocks(self, data):
        """blocks of leaf 0 in a concrete run"""
        for i in range(0, len(data) - 3):
            x = data[i]
            if type(x) is tuple and x[1] == 0 and type(x[0]) is T and x[0].op == 'uf' and x[0].args[0] == 'H:L0':
                k = x[0].args[1][0][0]
                return k if type(k) is int else None
        return 0

    def fit(self, vs, case):
        ref = inv.Ref(self.sc, self.s, (self.n,), 't')
        data = [None] * len(vs[0][1])
        names = set(['tn'])
        views = list(vs)
        # what does not fit is left open
        loose = set()
        for _ in range(40):
            v2 = [(a, [('x', 0) if i in loose else x for i, x in enumerate(d)] if loose else d, m, z) for a, d, m, z in views]
            r = canon.fitcase(self.e, ref, v2, case, self.byte, names, self.n)
            if type(r) is list:
                for i in loose:
                    r[i] = (tm.var('any!t!%d' % i, 8), 0)
                return r
            if self.e.log:
                self.e.log('no closed form for byte %d of the tree' % r)
            loose.add(r)
        raise Undecided('no closed form for the tree state')

    def inst(self, case, N, q, r):
        m = {self.n: N, self.q: q, self.r: r}
        memo = {}
        conds = [tm.subst(c, m, memo) if type(c) is T else c for c in case.conds]
        data = []
        for x in case.data:
            if type(x) is tuple:
                v = inv.subval(x[0], m, memo)
                if type(v) is int:
                    w = x[0].w
                    data.append(v if w == 8 else (tm.const(v, w), x[1]))
                else:
                    data.append((v, x[1]))
            else:
                data.append(x)
        return conds, data

    def enter(self, n, case, more=()):
        """a state in which the tree is R(n, q), or None"""
        e = self.e
        q, r = (self.q, self.r) if case else (0, add(n, self.koff, 64))
        conds, data = self.inst(self.cases[case], n, q, r)
        s = self.base.copy()
        s.wobj(self.s.obj).data = list(data)
        for c in conds + list(more):
            if type(c) is not T:
                if not c:
                    return None
                continue
            s.pc = s.pc + (c,)
            e.add_fact(s, c, True)
        x, m = e.smt.check(list(s.pc), True)
        if x == 'unsat':
            return None
        if x != 'sat':
            raise I.Incomplete('solver undecided on a reference state')
        s.models = [m]
        return s

    def same(self, st, n):
        """the tree is R(n, q) for the q its leaves show"""
        e = self.e
        for s in self.split(st):
            w = e.word(s.mem[self.s.obj].data, self.spot, 4)
            w = e.norm(s, w) if type(w) is T else w
            N = add(n, self.koff, 64)
            if type(w) is T and w.op == 'uf' and w.args[0] == 'H:L0':
                q = w.args[1][0][0]
                case = 1
            else:
                q = 0
                case = 0
            if type(q) is T:
                t, f = e.branch(s, eq(q, 0, 64))
                alts = [(t, 0, 0), (f, 1, q)]
            else:
                alts = [(s, 1 if q else 0, q)]
            for x, case, q in alts:
                if x is not None:
                    self.same1(x, n, case, q, sub(N, mul(q, 512, 64), 64) if type(q) is T or q else N)

    def split(self, st):
        """states in which the first chaining value is no choice"""
        e = self.e
        out = []
        todo = [st.copy()]
        while todo:
            s = todo.pop()
            e.tidy(s)
            w = e.word(s.mem[self.s.obj].data, self.spot, 4)
            w = e.norm(s, w) if type(w) is T else w
            c = None
            if type(w) is T and w.op == 'ite':
                c = w.args[0]
            elif type(w) is T and w.op == 'uf' and type(w.args[1][0][0]) is T and w.args[1][0][0].op == 'ite':
                c = w.args[1][0][0].args[0]
            if c is None or len(out) + len(todo) > 16:
                out.append(s)
                continue
            t, f = e.branch(s, c)
            if t is None or f is None:
                x = t or f
                if c not in x.facts:
                    e.add_fact(x, c, t is not None)
            todo += [x for x in (f, t) if x is not None]
        return out

    def same1(self, st, n, case, q, r):
        e = self.e
        conds, data = self.inst(self.cases[case], n, q, r)
        for c in conds:
            c = e.norm(st, c) if type(c) is T else c
            if type(c) is not T:
                if not c:
                    raise inv.NotClosed(st, 'fill of the buffer', None, [])
                continue
            ok, m = e.prove(st, c)
            if ok is None:
                raise I.Incomplete('solver undecided on the fill of the buffer')
            if not ok:
                raise inv.NotClosed(st, 'fill of the buffer', m, [not_(c)])
        free = set('any!t!%d' % i for i in range(len(data)))
        for s in inv.cases(e, st, self.s.obj):
            ds = inv.diffs(e, s, s.mem[self.s.obj].data, data, free)
            ds = [(ix, d) for ix, d in ds if type(d) is T or d]
            for i in range(0, len(ds), 8):
                grp = ds[i:i + 8]
                d = tm.disj([x for _, x in grp])
                ok, m = e.prove(s, not_(d)) if type(d) is T else (not d, None)
                if ok:
                    continue
                if ok is None:
                    for ix, x in grp:
                        ok, m = e.prove(s, not_(x)) if type(x) is T else (not x, None)
                        if ok is None:
                            raise I.Incomplete('solver undecided on a state comparison')
                        if not ok:
                            break
                    else:
                        continue
                bad = [ix for ix, x in grp if m is None or m.val(x)]
                raise inv.NotClosed(s, 'byte %s of the tree' % (bad[0][0] if bad else '?'), m, [d] if type(d) is T else [])

    # ------------------------------------------------------------ replay
    def reach(self, n, q=None, r=None):
        """updates that lead to R(n, q)"""
        N = add(n, self.koff, 64)
        r = r if r is not None else N
        over = ite(ult(960, r, 64), sub(r, 960, 64), 0, 64)
        x = sub(n, over, 64)
        return [('h_sp_update', (self.s, self.mab, x)), ('h_sp_update', (self.s, I.Ptr(self.mab.obj, x), over))]

    def traces(self, case, fn='h_sp_update', retlen=False):
        a, b, s, h = self.a, self.b, self.s, self.h
        ab = add(a, b, 64)
        up = self.reach(a, r=self.r if case else None) + [(fn, (s, I.Ptr(self.mab.obj, a), b))]
        fin = ('h_sp_finalize', (s, h))
        t = self.trace(up + [fin], ab, ab)
        if retlen:
            t.want(kind='ret', step=len(self.construct()) + 2, value=b)
        out = [t]
        for more in (1, 449, 600, 1100):
            k = add(ab, more, 64)
            out.append(self.trace(up + [('h_sp_update', (s, I.Ptr(self.mab.obj, ab), more)), fin], k, k))
        return out

    def ftraces(self, case):
        a, s, h = self.a, self.s, self.h
        up = self.reach(a, r=self.r if case else None)
        fin = ('h_sp_finalize', (s, h))
        out = [self.trace(up + [fin], a, a), self.trace(up + [fin, fin], a, a)]
        for more in (1, 449, 1100):
            k = add(a, more, 64)
            out.append(self.trace(up + [fin, ('h_sp_update', (s, I.Ptr(self.mab.obj, a), more)), fin], k, k))
        return out

    # ------------------------------------------------------------ obligations
    def closes(self, name, gen, traces):
        part, sc = self.part, self.sc
        sc.hint_traces = traces
        got = 0
        try:
            for st, n in gen():
                got += 1
                self.same(st, n)
        except inv.NotClosed as x:
            part.log('not closed: %s: %s' % (name, x.what))
            part.cex(name, traces, sc, x.st, x.conds)
            raise Undecided('%s: %s' % (name, x.what))
        if not part.panics(sc, name, traces):
            raise Undecided('possible panic')
        return got

    def new(self):
        t = self.trace([('h_sp_finalize', (self.s, self.h))], 0, 0)
        self.closes('new', lambda: [(self.fresh.copy(), 0)], [t])
        self.part.ok('%s gives R(0, 0)' % self.t.how)

    def step(self, fn='h_sp_update', retlen=False):
        for case in (0, 1):
            ts = self.traces(case, fn, retlen)

            def gen():
                st = self.enter(self.a, case)
                if st is None:
                    return
                for x, r in self.e.run('@' + fn, st, [self.s, I.Ptr(self.mab.obj, self.a), self.b]):
                    if retlen:
                        self.part.prove_quiet(fn + ' returns the length', self.sc, x, eq(r, self.b, 64), ts)
                    yield x, add(self.a, self.b, 64)
            if not self.closes('%s from %s' % (fn[2:], 'R(n, q)' if case else 'R(n, 0)'), gen, ts):
                raise Undecided('no state reached')
            self.part.ok('%s; %s(b) is R(a+b, q\')' % ('R(a, q)' if case else 'R(a, 0)', fn[5:]))

    def windows(self, rng):
        """every fill of the buffer, 64 bytes at a time"""
        out = []
        if not self.koff:
            out.append((0, None))
        for w in range(16):
            if 64 * (w + 1) >= self.koff:
                out.append((0, w))
        for w in range(16):
            if 64 * (w + 1) >= rng[0] and 64 * w < rng[1]:
                out.append((1, w))
        if rng[0] == 0:
            out.append((1, None))
        return out

    def finalize(self, wins, check=True):
        t, sc = self.t, self.sc
        koff = self.koff
        for case, w in wins:
            N = add(self.a, koff, 64)
            r = self.r if case else N
            more = [eq(r, 0, 64)] if w is None else [ult(64 * w, r, 64), ule(r, 64 * w + 64, 64)]
            ts = self.ftraces(case)
            want = self.digest(case, w, r) if check else None

            def gen():
                st = self.enter(self.a, case, more)
                if st is None:
                    return
                for x, _ in self.e.run('@h_sp_finalize', st, [self.s, self.h]):
                    if check:
                        t.check(x, self.a, want, ts)
                    yield x, self.a
            name = 'finalize %s with %s' % ('R(n, q)' if case else 'R(n, 0)', 'an empty buffer' if w is None else '%d to %d bytes in the buffer' % (64 * w + 1, 64 * w + 64))
            self.closes(name, gen, ts)
        self.part.ok('finalize gives the digest and keeps R(n, q): %d ranges of the buffer' % len(wins))

    def digest(self, case, w, r):
        """specified digest of N = 512 q + r bytes, r in the given range"""
        t = self.t
        if t.root is not None:
            self.sc.layer.streams.pop(t.root.sid, None)
        ws = []
        e = mul(self.q, 64, 64) if case else 0
        for i, l in enumerate(t.leaf):
            n = 0
            for k in (i, i + 8):
                if w is None or k > w:
                    continue
                n = add(n, 64 if k < w else sub(r, 64 * w, 64), 64)
            ws += S.wbytes(l.d(add(e, n, 64), 1 if i == 7 else 0))
        byte = lambda x: ws[x] if type(x) is not T else t.pick(ws, x)
        t.root = self.sc.layer.add(S.Stream('R%d' % t.nroot, t.rootw, byte))
        t.nroot += 1
        return S.wbytes(t.root.d(256, 1))

    def noop(self, fn, ret=None):
        """a call that leaves R(n, q) as it is; ret(n): what it returns"""
        for case in (0, 1):
            up = self.reach(self.a, r=self.r if case else None)
            t = self.trace(up + [(fn, (self.s,)), ('h_sp_finalize', (self.s, self.h))], self.a, self.a)
            if ret:
                t.want(kind='ret', step=len(self.construct()) + 2, value=ret(self.a))

            def gen():
                st = self.enter(self.a, case)
                if st is None:
                    return
                for x, r in self.e.run('@' + fn, st, [self.s]):
                    if ret:
                        v = ret(self.a)
                        self.part.prove_quiet('result of ' + fn[2:], self.sc, x, eq(r, v, r.w if type(r) is T else 64), [t])
                    yield x, self.a
            self.closes(fn[2:], gen, [t])
        self.part.ok('%s keeps R(n, q)%s' % (fn[2:], ', result as specified' if ret else ''))


def history(part, key=None, sym=True, how='params', portable=False, what=('step', 'finalize'), wins=None, check=True):
    """any history of a tree state"""
    last = None
    for rng in RANGES:
        h = TreeHist(part, key, sym, how, portable)
        try:
            h.ref(rng)
            h.new()
            for x in what:
                if x == 'step':
                    h.step()
                elif x == 'write':
                    h.step('h_sp_write', True)
                elif x == 'flush':
                    h.noop('h_sp_flush', lambda n: 0)
                elif x == 'count':
                    h.noop('h_sp_count', lambda n: n)
                elif x == 'finalize':
                    ws = h.windows(rng)
                    h.finalize(ws if wins is None else ws[wins[0]::wins[1]], check)
            part.bounds.append('tree states: total message length <= 2^56 bytes, any history of calls')
            return
        except (Undecided, I.Incomplete, I.Unsupported) as x:
            part.log('buffer fill %d to %d: %s' % (rng + (x,)))
            last = last or x
            if not str(x).count('fill of the buffer'):
                break
    raise last


def oneshot(part, wins=(0, 1), check=True):
    """blake2sp of every length: n = 512 q + r, 64 values of r at a time"""
    ws = [(0, None)] + [(0, w) for w in range(15)] + [(1, w) for w in range(7, 15)]
    ws = ws[wins[0]::wins[1]]
    for case, w in ws:
        t = TR.Tree(part, None, False, 'blake2sp', 'new', unroll=70)
        sc = t.sc
        sc.e.must_close = True
        n = sc.length('n', hi=MAXLEN)
        m = sc.arr('m', n)
        h = TreeHist.__new__(TreeHist)
        h.sc, h.t, h.q = sc, t, tm.var('q', 64)
        tm.BOUNDS['q'] = 1 << 48
        r = tm.var('r', 64)
        tm.BOUNDS['r'] = 960
        q = h.q if case else 0
        sc.assume(eq(n, add(mul(q, 512, 64), r, 64) if case else r, 64))
        if case:
            sc.assume(ule(1, q, 64), ule(q, 1 << 47, 64), ule(449, r, 64))
        if w is None:
            sc.assume(eq(r, 0, 64))
        else:
            sc.assume(ult(64 * w, r, 64), ule(r, 64 * w + 64, 64))
        want = h.digest(case, w, r) if check else None
        tr = Trace(sc, [('h_blake2sp', (m, n, t.h))], lens={'m': n})
        tr.want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, n]]))
        sc.hint_traces = [tr]
        sc.call('h_blake2sp', m, n, t.h)
        if not part.panics(sc, 'blake2sp', tr):
            raise Undecided('possible panic')
        if not sc.sts:
            raise Undecided('no state left')
        if check:
            for st, vals in sc.sts:
                t.check(st, n, want, [tr])
    part.bounds.append('blake2sp: every length up to 2^56')
    part.ok('blake2sp of every length: %d of 24 ranges of the remainder' % len(ws))
