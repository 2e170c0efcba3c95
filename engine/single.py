"""Parts about the sequential hash state (blake2s::State) and its parameters."""
import terms as tm
from terms import T, add, sub, eq, ne, ite, ule, ult, not_, ext, sel, and_, or_
import interp as I
import stream as S
import spec
import inv
import canon
from chk import Trace, Undecided, Stop

MAXLEN = 1 << 56


def v(name, w):
    return tm.var(name, w)


class Params(object):
    """symbolic parameters and key of one hash: names get a suffix"""

    def __init__(self, sc, sfx='', kind='default', key=None, marr='m'):
        self.sc = sc
        self.kind = kind
        self.sfx = sfx
        self.marr = marr
        P = {}
        self.key = key
        n = lambda x: x + sfx
        if kind == 'all':
            P = dict(digest_length=v(n('hl'), 64), fanout=v(n('fo'), 8), depth=v(n('md'), 8), leaf_length=v(n('ml'), 32), node_offset=v(n('no'), 64), node_depth=v(n('nd'), 8), inner_length=v(n('il'), 64))
            sc.assume(ule(1, P['digest_length'], 64), ule(P['digest_length'], 32, 64), ne(P['depth'], 0, 8), ult(P['node_offset'], 1 << 48, 64), ule(P['inner_length'], 32, 64))
            self.last = v(n('ln'), 1)
            self.sn = v(n('sn'), 64)
            self.pn = v(n('pn'), 64)
            sc.assume(ule(self.sn, 8, 64), ule(self.pn, 8, 64))
            self.salt = sc.arr(n('salt'), self.sn)
            self.personal = sc.arr(n('pers'), self.pn)
        else:
            self.last = 0
        self.P = P
        if key:
            self.kn = v(n('kn'), 64)
            sc.assume(ule(1, self.kn, 64), ule(self.kn, 32, 64))
            self.kp = sc.arr(n('key'), self.kn)
        else:
            self.kn = 0
            self.kp = None
            if kind == 'all':
                self.kp = sc.arr(n('key'), 0)
        self.koff = 64 if key else 0
        self.karr = 'key' + sfx

    def kb(self, i):
        """byte i of the key block, once abstracted: the bytes before the message"""
        return sel(self.marr, (i - 64) & tm.mask(64))

    def free_words(self, sid='s'):
        if self.kind == 'all' or self.key:
            return [tm.var('iv!%s!%d' % (sid, k), 32) for k in range(8)]
        return self.words()

    def free_byte(self, m):
        if not self.key:
            return lambda i: sel(m, i)
        return lambda i: sel(m, sub(i, 64, 64))

    def pad(self, arr, i, n):
        if type(i) is not T:
            return ite(ult(i, n, 64), sel(arr, i), 0, 8)
        return ite(ult(i, n, 64), sel(arr, i), 0, 8)

    def words(self):
        P = self.P
        kw = {}
        sfx = self.sfx
        if self.kind == 'all':
            kw = dict(digest_length=ext(P['digest_length'], 0, 8), fanout=P['fanout'], depth=P['depth'], leaf_length=P['leaf_length'], node_offset=ext(P['node_offset'], 0, 48), node_depth=P['node_depth'], inner_length=ext(P['inner_length'], 0, 8),
                      salt=[self.pad('salt' + sfx, i, self.sn) for i in range(8)], personal=[self.pad('pers' + sfx, i, self.pn) for i in range(8)])
        if self.key:
            kw['key_length'] = ext(self.kn, 0, 8)
        return spec.param_words(**kw)

    def byte(self, m):
        """the byte stream hashed: key block, then message array m"""
        if not self.key:
            return lambda i: sel(m, i)
        karr = 'key' + self.sfx

        def f(i):
            if type(i) is not T:
                if i < 32:
                    return self.pad(karr, i, self.kn)
                if i < 64:
                    return 0
                return sel(m, i - 64)
            return ite(ult(i, 64, 64), ite(and_(ult(i, 32, 64), ult(i, self.kn, 64), 1), sel(karr, i), 0, 8), sel(m, sub(i, 64, 64)), 8)
        return f

    def hl(self):
        return self.P.get('digest_length', 32)

    # ---- calls
    def build(self, p):
        """harness calls that initialise a Params object at p"""
        if self.kind == 'all':
            P = self.P
            return [('h_p_new', (p,)), ('h_p_all', (p, P['digest_length'], self.kp, self.kn, P['fanout'], P['depth'], P['leaf_length'], P['node_offset'], P['node_depth'], P['inner_length'], self.salt, self.sn, self.personal, self.pn, self.last))]
        out = [('h_p_new', (p,))]
        if self.key:
            out.append(('h_p_key', (p, self.kp, self.kn)))
        return out

    # ---- oracle description for replay
    def oracle(self, msg, last=None):
        d = dict(algo='blake2s', msg=msg, params=dict(self.P), last=self.last if last is None else last)
        d['params']['digest_length'] = self.hl()
        if self.kind == 'all':
            d['params']['salt'] = [['salt' + self.sfx, 0, self.sn], [{'bytes': [0] * 8}, 0, 0]]
            d['params']['personal'] = [['pers' + self.sfx, 0, self.pn], [{'bytes': [0] * 8}, 0, 0]]
        if self.key:
            d['key'] = [['key' + self.sfx, 0, self.kn]]
        return d


def abstract(sc, st, p, par, words, sid='s'):
    """Generalise a freshly built object: initial chaining words that the solver finds equal to the
    specified ones become unconstrained words, and the padded key block becomes 64 unconstrained bytes.
    What holds for those holds for every parameter block and key.  -> number of places replaced"""
    e = sc.e
    o = st.wobj(p.obj)
    data = o.data
    n = 0
    # the initial words
    if par.kind == 'all' or par.key:
        i = 0
        while i + 32 <= len(data):
            got = [e.word(data, i + 4 * k, 4) if data[i + 4 * k] is not None else None for k in range(8)]
            if all(x is not None and x is not I.UNDEF and type(x) in (int, T) for x in got) and same_words(e, st, got, words):
                for k in range(8):
                    v = tm.var('iv!%s!%d' % (sid, k), 32)
                    for b in range(4):
                        data[i + 4 * k + b] = (v, b)
                n += 1
                i += 32
            else:
                i += 4 if i % 4 == 0 else 1
    if par.key:
        want = [par.pad(par.karr, i, par.kn) for i in range(32)] + [0] * 32
        i = 0
        while i + 64 <= len(data):
            got = [I.entry_byte(x) if x is not None else None for x in data[i:i + 64]]
            if all(x is not None for x in got) and any(type(x) is T for x in got) and same_words(e, st, got, want, 8):
                for k in range(64):
                    data[i + k] = (par.kb(k), 0)
                n += 1
                i += 64
            else:
                i += 1
    return n


def same_words(e, st, got, want, w=32):
    left = []
    for x, y in zip(got, want):
        if x is y or (type(x) is not T and type(y) is not T and x == y):
            continue
        if type(x) is not T and type(y) is not T:
            return False
        left.append((x, y))
    if not left:
        return True
    for env in st.models[:2]:
        if any(env.val(x) != env.val(y) for x, y in left):
            return False
    ok, m = e.prove(st, tm.conj([eq(x, y, w) for x, y in left]))
    return bool(ok)


class Hist(object):
    """construct, update, finalize on one State, with the reference representation"""

    def __init__(self, part, how='new', kind='default', key=None, lastvar=False, name='', portable=False, clone=False, nmax=MAXLEN):
        self.part = part
        self.how = how
        sc = self.sc = part.scenario(name or how, unroll=70)
        self.e = sc.e
        self.e.must_close = True
        self.n = sc.length('n', hi=nmax)
        self.a = sc.length('a', hi=nmax)
        self.b = sc.length('b', hi=nmax)
        sc.assume(ule(add(self.a, self.b, 64), nmax, 64))
        sc.assume(ule(self.n, nmax, 64))
        self.par = Params(sc, '', kind, key)
        self.koff = self.par.koff
        self.mn = sc.arr('m', self.n)
        self.mab = sc.arr('m', add(self.a, self.b, 64))
        self.ma = sc.arr('m', self.a)
        self.s = sc.obj('s', 'State')
        self.h = sc.obj('h', 'Hash')
        self.p = sc.obj('p', 'Params')
        self.t = sc.obj('t', 'State') if clone else None
        self.str = sc.layer.add(S.Stream('s', self.par.free_words(), self.par.free_byte('m')))
        self.last = self.par.last
        self.l2 = None
        self.portable = portable
        self.lastvar = lastvar
        if lastvar:
            self.last = v('last0', 1)
            self.l2 = v('last1', 1)
        self.base = sc.sts[0][0]
        assert len(sc.sts) == 1

    def construct(self):
        s, p = self.s, self.p
        if self.how == 'new':
            c = [('h_s_new', (s,))]
        elif self.how == 'default':
            c = [('h_s_default', (s,))]
        else:
            c = self.par.build(p) + [('h_p_to_state', (p, s))]
        if self.portable:
            c.append(('h_s_force_portable', (s,)))
        if self.lastvar:
            c.append(('h_s_set_last_node', (s, self.last)))
        return c

    def go(self, calls, st=None):
        """run calls from a state (default: base) -> states"""
        sts = [(st or self.base).copy()]
        for fn, args in calls:
            nxt = []
            for x in sts:
                for y, r in self.e.run('@' + fn, x, [1 if a is True else 0 if a is False else a for a in args]):
                    nxt.append(y)
            sts = nxt
        return sts

    def merge(self, sts):
        self.sc.sts = [(x, {}) for x in sts]
        self.sc.merge()
        return [x for x, _ in self.sc.sts]

    def dlen(self, n):
        return add(n, self.koff, 64)

    def digest(self, n, last=None):
        return S.wbytes(self.str.d(self.dlen(n), self.last if last is None else last))

    def trace(self, steps, lens, n=None, last=None):
        """construct, steps, and if n is given, the digest of the first n bytes in h"""
        t = Trace(self.sc, self.construct() + list(steps), lens={'m': lens})
        if n is not None:
            t.want(kind='digest', hash=self.h, **self.par.oracle([['m', 0, n]], self.last if last is None else last))
        return t

    # ------------------------------------------------------------ the reference
    def ref(self):
        sc = self.sc
        sts = self.merge(self.go(self.construct()))
        if self.par.kind == 'all' or self.par.key:
            for x in sts:
                n = abstract(sc, x, self.s, self.par, self.par.words())
                if n < (2 if self.par.key else 1):
                    self.part.cex('construction', self.ctraces(), sc, x, [])
                    raise Undecided('the new state does not hold the specified parameter words and key block')
            self.part.ok('the new state holds the specified parameter words%s' % (' and key block' if self.par.key else ''))
        self.fresh = [x.copy() for x in sts]
        out = []
        tr = self.trace([('h_s_update', (self.s, self.mn, self.n)), ('h_s_finalize', (self.s, self.h))], self.n, self.n)
        sc.hint_traces = [tr]
        for x in sts:
            for y, _ in self.e.run('@h_s_update', x, [self.s, self.mn, self.n]):
                out.append(y)
        out = self.merge(out)
        if not out:
            raise Undecided('no state after update')
        vs = (self.n, self.last) if self.lastvar else (self.n,)
        self.R = inv.Ref(sc, self.s, vs, 's')
        self.R.record(self.base.pc, out)
        if not self.part.panics(sc, self.how + ': construct and update', tr):
            raise Undecided('possible panic')
        self.refs = []
        for lazy in (True, False):
            cs = canon.block_cases(self.n, self.koff, self.str, lazy)
            r = canon.fit(sc, self.R, self.n, cs, self.str)
            if r is not None and canon.covered(self.e, self.n, MAXLEN, cs, self.koff, lazy):
                self.refs.append(('lazy' if lazy else 'eager', r))
                break
        self.refs.append(('as executed', self.R))
        self.part.log('reference candidates: %s' % [x for x, _ in self.refs])
        self.R = self.refs[0][1]
        self.part.ok('reference state of %s for every n (%d cases)' % (self.how, len(self.R.items)))

    def ctraces(self):
        s, h = self.s, self.h
        return [self.trace([('h_s_update', (s, self.mn, k)), ('h_s_finalize', (s, h))], k, k) for k in (0, 1, 65)]

    def at(self, n, last=None):
        return (n, self.last if last is None else last) if self.lastvar else (n,)

    def enter(self, n, last=None):
        return inv.enter(self.sc, self.base, [(self.R, self.at(n, last))])

    def obligations(self, obls):
        """obls: [(name, generator of (state, N), traces)] - all have to close under one R"""
        for k, (what, r) in enumerate(self.refs):
            self.R = r
            try:
                return self.obligations1(obls)
            except (Undecided, I.Incomplete, I.Unsupported) as x:
                self.part.log('reference %s: %s' % (what, x))
                if k == len(self.refs) - 1:
                    raise

    def obligations1(self, obls):
        part = self.part
        for rnd in range(8):
            bad = []
            for name, f, traces in obls:
                self.sc.hint_traces = traces
                try:
                    got = 0
                    for st, N in f():
                        got += 1
                        ok, ix = inv.same(self.sc, st, self.R, N)
                        if not ok:
                            bad += ix
                    if not got:
                        raise Undecided('%s: no state reached' % name)
                except inv.NotClosed as x:
                    part.log('not closed: %s: %s' % (name, x.what))
                    part.cex(name, traces, self.sc, x.st, x.conds)
                    raise Undecided('%s: %s' % (name, x.what))
                if not part.panics(self.sc, name, traces):
                    raise Undecided('possible panic')
            if not bad:
                for name, f, traces in obls:
                    part.ok(name)
                return
            self.R.weaken(bad)
        raise Undecided('the reference representation does not close')

    # ------------------------------------------------------------ obligations
    def new_is_R0(self):
        def f():
            for x in self.fresh:
                yield x.copy(), self.at(0)
        t = self.trace([('h_s_finalize', (self.s, self.h))], 0, 0)
        t2 = self.trace([('h_s_update', (self.s, self.ma, 0)), ('h_s_update', (self.s, self.ma, self.a)), ('h_s_finalize', (self.s, self.h))], self.a, self.a)
        return ('%s gives R(0)' % self.how, f, [t, t2])

    def step(self, fn='h_s_update', retlen=False):
        def f():
            for st in self.enter(self.a):
                for x, r in self.e.run('@' + fn, st, [self.s, I.Ptr(self.mab.obj, self.a), self.b]):
                    if retlen:
                        self.part.prove_quiet(fn + ' returns the length', self.sc, x, eq(r, self.b, 64), self.step_traces(fn, True))
                    yield x, self.at(add(self.a, self.b, 64))
        return ('R(a); %s(b) is R(a+b)' % fn[4:], f, self.step_traces(fn, retlen))

    def step_traces(self, fn, retlen=False):
        s, h = self.s, self.h
        ab = add(self.a, self.b, 64)
        up = [('h_s_update', (s, self.mab, self.a)), (fn, (s, I.Ptr(self.mab.obj, self.a), self.b))]
        t1 = self.trace(up + [('h_s_finalize', (s, h))], ab, ab)
        if retlen:
            t1.want(kind='ret', step=len(self.construct()) + 1, value=self.b)
        k = len(self.construct()) + len(up)
        t1.call('h_s_count', s)
        # a little more input afterwards, to see differences that only show later
        out = [t1]
        for more in (1, 64, 65, 130):
            t = self.trace(up + [('h_s_update', (s, I.Ptr(self.mab.obj, ab), more)), ('h_s_finalize', (s, h))], add(ab, more, 64), add(ab, more, 64))
            out.append(t)
        return out

    def finalize(self, check=True):
        traces = self.fin_traces()

        def f():
            for st in self.enter(self.a):
                for x, _ in self.e.run('@h_s_finalize', st, [self.s, self.h]):
                    if check:
                        self.check_digest(x, self.a, traces)
                    yield x, self.at(self.a)
        return ('R(n); finalize gives the digest and keeps R(n)', f, traces)

    def fin_traces(self):
        s, h = self.s, self.h
        up = [('h_s_update', (s, self.ma, self.a)), ('h_s_finalize', (s, h))]
        out = [self.trace(up, self.a, self.a), self.trace(up + up[1:], self.a, self.a)]
        for more in (1, 64, 130):
            n = add(self.a, more, 64)
            out.append(self.trace(up + [('h_s_update', (s, I.Ptr(self.mab.obj, self.a), more)), ('h_s_finalize', (s, h))], n, n))
        return out

    def check_digest(self, st, n, traces, last=None, hptr=None, name=None):
        """the Hash object holds the specified digest of the first n bytes"""
        sc = self.sc
        part = self.part
        st2, ln, p = sc.hash_of(st.copy(), hptr or self.h)
        hl = self.par.hl()
        part.prove_quiet('digest length', sc, st2, eq(ln, hl, 64), traces)
        bb = sc.bytes(st2, p, 32)
        want = self.digest(n, last)
        conds = []
        for k, (x, y) in enumerate(zip(bb, want)):
            c = not_(S.diff8(x, y, 0)) if x is not None else 0
            if type(hl) is T:
                c = or_(ule(hl, k, 64), c, 1)
            conds.append(c)
        part.prove_quiet(name or 'digest', sc, st2, tm.conj(conds), traces)

    def count(self):
        """count() of R(n) is n"""
        for st in self.enter(self.a):
            for x, r in self.e.run('@h_s_count', st, [self.s]):
                t = self.trace([('h_s_update', (self.s, self.ma, self.a)), ('h_s_count', (self.s,))], self.a)
                t.want(kind='ret', step=len(t.steps) - 1, value=self.a)
                self.part.prove_quiet('count', self.sc, x, eq(r, self.a, 64), [t])
        t = self.trace([('h_s_update', (self.s, self.ma, self.a)), ('h_s_count', (self.s,))], self.a)
        if not self.part.panics(self.sc, 'count', t):
            raise Undecided('possible panic')
        self.part.ok('count() of R(n) is n')

    def noop(self, fn, args, ret=None):
        """a call that leaves R(n) as it is"""
        call = (fn, args)
        t = self.trace([('h_s_update', (self.s, self.ma, self.a)), call, ('h_s_finalize', (self.s, self.h))], self.a, self.a)
        k = len(self.construct()) + 1
        if ret is not None:
            t.want(kind='ret', step=k, value=ret)

        def f():
            for st in self.enter(self.a):
                for x, r in self.e.run('@' + fn, st, list(args)):
                    if ret is not None:
                        self.part.prove_quiet('%s returns %d' % (fn, ret), self.sc, x, eq(r, ret, r.w if type(r) is T else 64), [t])
                    yield x, self.at(self.a)
        return ('%s keeps R(n)' % fn[2:], f, [t])

    def setlast(self):
        """set_last_node(l) takes R(n, l0) to R(n, l)"""
        s, h = self.s, self.h
        call = ('h_s_set_last_node', (s, self.l2))
        up = [('h_s_update', (s, self.ma, self.a)), call]
        ts = [self.trace(up + [('h_s_finalize', (s, h))], self.a, self.a, self.l2)]
        more = 130
        n = add(self.a, more, 64)
        ts.append(self.trace(up + [('h_s_update', (s, I.Ptr(self.mab.obj, self.a), more)), ('h_s_finalize', (s, h))], n, n, self.l2))
        ts.append(self.trace([up[0], ('h_s_finalize', (s, h)), call, ('h_s_finalize', (s, h))], self.a, self.a, self.l2))

        def f():
            for st in self.enter(self.a):
                for x, r in self.e.run('@h_s_set_last_node', st, [s, self.l2]):
                    yield x, self.at(self.a, self.l2)
        return ('set_last_node(l) takes R(n, l0) to R(n, l)', f, ts)

    def clone(self):
        """a clone is R(n) and the original stays R(n)"""
        sc = self.sc
        call = ('h_s_clone', (self.s, self.t))
        up = ('h_s_update', (self.s, self.ma, self.a))
        t1 = self.trace([up, call, ('h_s_finalize', (self.t, self.h))], self.a, self.a)
        t2 = self.trace([up, call, ('h_s_finalize', (self.s, self.h))], self.a, self.a)
        n = add(self.a, 130, 64)
        t3 = self.trace([up, call, ('h_s_update', (self.s, I.Ptr(self.mab.obj, 0), 70)), ('h_s_update', (self.t, I.Ptr(self.mab.obj, self.a), 130)), ('h_s_finalize', (self.t, self.h))], n, n)
        ts = [t1, t2, t3]

        def f():
            for st in self.enter(self.a):
                for x, r in self.e.run('@h_s_clone', st, [self.s, self.t]):
                    y = x.copy()
                    y.wobj(self.s.obj).data = list(x.mem[self.t.obj].data)
                    yield x, self.at(self.a)
                    yield y, self.at(self.a)
        return ('clone of R(n) is R(n)', f, ts)


# ---------------------------------------------------------------- fallbacks

def chain(part, how='new', kind='default', key=None, lens=None, finals=(False, True), portable=False, cap=MAXLEN, merge=True, name='chain', ns=None, quiet=False):
    """construct, update(n0), [finalize], update(n1), ..., finalize: every length symbolic"""
    k = len(finals)
    sc = part.scenario(name, merge=merge)
    e = sc.e
    ns = ns or [sc.length('n%d' % i, hi=cap) for i in range(k)]
    tot = [0]
    for x in ns:
        tot.append(add(tot[-1], x, 64))
    for t in tot[1:]:
        sc.assume(ule(t, cap, 64))
    par = Params(sc, '', kind, key)
    m = sc.arr('m', tot[-1])
    s = sc.obj('s', 'State')
    h = sc.obj('h', 'Hash')
    p = sc.obj('p', 'Params')
    stm = sc.layer.add(S.Stream('s', par.free_words(), par.free_byte('m')))
    calls = [('h_s_%s' % how, (s,))] if how in ('new', 'default') else par.build(p) + [('h_p_to_state', (p, s))]
    if portable and portable != 'mid':
        calls.append(('h_s_force_portable', (s,)))
    base = Trace(sc, lens={'m': tot[-1]})

    def do(fn, *args):
        base.call(fn, *args)
        sc.call(fn, *args)
        if not part.panics(sc, '%s: %s' % (name, fn), base.copy()):
            raise Undecided('possible panic')
        if not sc.sts:
            raise Undecided('no state left')
    for fn, args in calls:
        do(fn, *args)
    if par.kind == 'all' or par.key:
        for st, vals in sc.sts:
            if abstract(sc, st, s, par, par.words()) < (2 if par.key else 1):
                raise Undecided('the new state does not hold the specified parameter words and key block')
    for i in range(k):
        t = base.copy()
        t.call('h_s_update', s, I.Ptr(m.obj, tot[i]), ns[i])
        t.call('h_s_finalize', s, h)
        sc.hint_traces = [t.want(kind='digest', hash=h, **par.oracle([['m', 0, tot[i + 1]]]))]
        do('h_s_update', s, I.Ptr(m.obj, tot[i]), ns[i])
        if portable == 'mid' and i == 0:
            do('h_s_force_portable', s)
        if finals[i]:
            do('h_s_finalize', s, h)
            t = base.copy().want(kind='digest', hash=h, **par.oracle([['m', 0, tot[i + 1]]]))
            for st, vals in sc.sts:
                st2, ln, q = sc.hash_of(st.copy(), h)
                bb = sc.bytes(st2, q, 32)
                want = S.wbytes(stm.d(add(tot[i + 1], par.koff, 64), par.last))
                hl = par.hl()
                part.prove_quiet('digest length', sc, st2, eq(ln, hl, 64), [t])
                conds = []
                for j, (x, y) in enumerate(zip(bb, want)):
                    c = not_(S.diff8(x, y, 0)) if x is not None else 0
                    if type(hl) is T:
                        c = or_(ule(hl, j, 64), c, 1)
                    conds.append(c)
                part.prove_quiet('digest', sc, st2, tm.conj(conds), [t])
            do('h_s_count', s)
            tc = base.copy()
            del tc.steps[-1]
    if quiet:
        return
    part.ok('%s: %d updates of any lengths up to %d in all, finalized after %s' % (name, k, cap, [i + 1 for i in range(k) if finals[i]]))
    part.bounds.append('%s: histories of %d updates, total length <= %d' % (name, k, cap))


def fixed(part, how='new', kind='default', key=None, portable=False, name='fixed lengths'):
    """the last resort: two updates of given lengths, contents and parameters symbolic"""
    lens = [(0, 0), (1, 0), (63, 1), (64, 1), (64, 64), (65, 63), (1, 128), (127, 2), (130, 70)]
    for a, b in lens:
        chain(part, how, kind, key, portable=portable, finals=(True, True), ns=(a, b), name='lengths %d, %d' % (a, b), quiet=True)
    part.bounds.append('fixed lengths: two updates of lengths %s' % lens)
    part.ok('two updates of fixed lengths')
