"""Loop summaries by induction.

Given the states at successive arrivals at a loop head, guess the state G(K) at arrival K by
anti-unification.  The guess is only used if the solver closes the induction: every way round the
loop from G(K) (under its path condition) ends in G(K+1).  The base case holds by construction
(the arrival the guess was made from is checked to be G(base)).
"""
import terms as tm
from terms import T, add, sub, mul, eq, ult, ule, ite, and_, or_, not_, mask, ext

BOUND = 1 << 62


class NoGuess(Exception):
    pass


class Havoc(Exception):
    pass


class Guess(object):
    """anti-unification of two snapshots: value(0) = first, value(1) = second"""

    def __init__(self, eng, K):
        self.e = eng
        self.K = K
        self.memo = {}
        self.aff = {}       # (v1, d, w) -> True : affine locations
        self.havoc = 0

    def k(self, w):
        return self.K if w == 64 else ext(self.K, 0, w) if w < 64 else tm.zext(self.K, 64, w)

    def bv(self, a, b, w):
        if a is b or (type(a) is not T and type(b) is not T and a == b):
            return a
        key = (a, b, w)
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._bv(a, b, w)
            except NoGuess:
                r = NoGuess
            self.memo[key] = r
        if r is NoGuess:
            raise NoGuess()
        return r

    def _bv(self, a, b, w):
        if w >= 16:
            d = sub(b, a, w)
            if type(d) is not T:
                self.aff[(a, d, w)] = True
                return add(a, mul(self.k(w), d, w), w)
        if w == 8:
            r = self.fill(a, b)
            if r is not None:
                return r
        # streams that share their first block
        if type(a) is T and a.op == 'uf' and type(b) is T and b.op == 'uf' and a.args[0] != b.args[0] and tm.TWIN.get(b.args[0]) == a.args[0] and a.args[1][0][0] == 1:
            a = tm.uf(b.args[0], a.args[1], w)
        # a chaining value against the initial value of the same stream
        if type(b) is T and b.op == 'uf' and b.args[0] in tm.INIT:
            i = b.args[1][1][0]
            z = tm.INIT[b.args[0]][i]
            if a is z or (type(a) is not T and type(z) is not T and a == z):
                a = tm.uf(b.args[0], ((0, 64), (i, 8)), w)
                return self.bv(a, b, w)
        if type(a) is not T or type(b) is not T or a.op != b.op:
            raise NoGuess()
        op = a.op
        if op == 'uf':
            if a.args[0] != b.args[0]:
                raise NoGuess()
            return tm.uf(a.args[0], tuple((self.bv(x, y, vw), vw) for (x, vw), (y, _) in zip(a.args[1], b.args[1])), w)
        if op == 'sel':
            if a.args[0] != b.args[0]:
                raise NoGuess()
            return tm.sel(a.args[0], self.bv(a.args[1], b.args[1], 64))
        if op == 'ext':
            if a.args[1] != b.args[1] or a.args[0].w != b.args[0].w:
                raise NoGuess()
            return ext(self.bv(a.args[0], b.args[0], a.args[0].w), a.args[1], w)
        if op == 'sext':
            return tm.sext(self.bv(a.args[0], b.args[0], a.args[0].w), a.args[0].w, w)
        if op == 'cat':
            if [p.w for p in a.args] != [p.w for p in b.args]:
                raise NoGuess()
            return tm.cat([(self.bv(tm.unc(p), tm.unc(q), p.w), p.w) for p, q in zip(a.args, b.args)])
        if op == 'not':
            return not_(self.bv(a.args[0], b.args[0], 1))
        if op in ('and', 'or'):
            sa, sb = set(a.args), set(b.args)
            com = sa & sb
            ra = [x for x in a.args if x not in com]
            rb = [x for x in b.args if x not in com]
            if len(ra) != len(rb):
                raise NoGuess()
            l = list(com)
            used = set()
            for x in ra:
                for j, y in enumerate(rb):
                    if j in used:
                        continue
                    try:
                        l.append(self.bv(x, y, 1))
                        used.add(j)
                        break
                    except NoGuess:
                        pass
                else:
                    raise NoGuess()
            return tm.conj(l) if op == 'and' else tm.disj(l)
        if op in ('eq', 'ult', 'slt'):
            wa, wb = _cw(a), _cw(b)
            pa, pb = a.args, b.args
            if wa != wb:
                # a comparison that was narrowed because its operands are small
                if op == 'slt':
                    raise NoGuess()
                m = max(wa, wb)
                pa = [tm.zext(v, wa, m) for v in pa]
                pb = [tm.zext(v, wb, m) for v in pb]
                wa = m
            x = self.bv(pa[0], pb[0], wa)
            y = self.bv(pa[1], pb[1], wa)
            return {'eq': eq, 'ult': ult, 'slt': tm.slt}[op](x, y, wa)
        if op == 'ite':
            return ite(self.bv(a.args[0], b.args[0], 1), self.bv(a.args[1], b.args[1], w), self.bv(a.args[2], b.args[2], w), w)
        if op == 'xor':
            if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
                raise NoGuess()
            sa, sb = set(a.args[1]), set(b.args[1])
            r = a.args[0]
            for x in sa & sb:
                r = tm.xor(r, x, w)
            ra = [x for x in a.args[1] if x not in sb]
            rb = [x for x in b.args[1] if x not in sa]
            for x, y in zip(ra, rb):
                r = tm.xor(r, self.bv(x, y, w), w)
            return r
        if op in ('band', 'bor', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'add'):
            f = {'band': tm.and_, 'bor': tm.or_, 'mul': mul, 'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr, 'udiv': tm.udiv, 'urem': tm.urem, 'add': add}[op]
            return f(self.bv(a.args[0], b.args[0], w), self.bv(a.args[1], b.args[1], w), w)
        raise NoGuess()

    def fill(self, v1, v2):
        """a byte of a buffer that iteration k overwrites if its index is b+k"""
        if type(v2) is not T or v2.op != 'ite':
            return None
        c2, x2, r2 = v2.args
        # first snapshot: one write done (v1 = ite(c1, x1, v0)) or none (v1 = v0)
        cs2 = c2.args if c2.op == 'or' else (c2,)
        if type(v1) is T and v1.op == 'ite':
            c1, x1, v0 = v1.args
            cs1 = c1.args if c1.op == 'or' else (c1,)
            if r2 is v1:                                   # nested, different contents
                p1, p2 = _eqc(c1), _eqc(c2)
                if p1 and p2 and p1[0] is p2[0] and p1[1] - p2[1] == 1:
                    kk = sub(p1[1], tm.zext(p1[0], p1[0].w, 64), 64)
                    x = self.at(x1, x2, kk)
                    return ite(ule(kk, self.K, 64), x, v0, 8)
                return None
            if _same(r2, v0) and _same(x1, x2) and len(cs1) == 1 and len(cs2) == 2 and c1 in cs2:
                o = [c for c in cs2 if c is not c1][0]
                p1, p2 = _eqc(c1), _eqc(o)
                if p1 and p2 and p1[0] is p2[0] and p1[1] - p2[1] == 1:
                    kk = sub(p1[1], tm.zext(p1[0], p1[0].w, 64), 64)
                    return ite(ule(kk, self.K, 64), x1, v0, 8)
                # already generalised once: ite(t-b <=u K', ..)
        if _same(r2, v1) and len(cs2) == 1:
            # arrivals 0 and 1: nothing written, then index b
            p = _eqc(c2)
            if p:
                kk = sub(p[1], tm.zext(p[0], p[0].w, 64), 64)
                x = x2
                if type(x2) is T and self.x3 is not None:
                    x = self.x3(x2, kk)
                return ite(ult(kk, self.K, 64), x, v1, 8)
        return None

    x3 = None

    def at(self, x1, x2, kk):
        if _same(x1, x2):
            return x1
        v = self.bv(x1, x2, 8)
        return tm.subst(v, {self.K: kk}) if type(v) is T else v

    def val(self, a, b, t=None):
        import interp as I
        if a is b:
            return a
        if a is I.UNDEF or b is I.UNDEF:
            return I.UNDEF
        if type(a) in (int, T) and type(b) in (int, T):
            w = a.w if type(a) is T else b.w if type(b) is T else t[1] if t and t[0] in ('i', 'f') else 64
            return self.bv(a, b, w)
        if type(a) is not type(b):
            raise NoGuess()
        if type(a) is I.Ptr:
            if a.obj != b.obj:
                raise NoGuess()
            return I.Ptr(a.obj, self.bv(a.off, b.off, 64))
        if type(a) is I.Vec or type(a) is I.Agg:
            if len(a.e) != len(b.e):
                raise NoGuess()
            return type(a)([self.val(x, y, self.sub(t, i)) for i, (x, y) in enumerate(zip(a.e, b.e))])
        if type(a) is I.PIte:
            return self.e.pite(self.bv(a.c, b.c, 1), self.val(a.a, b.a), self.val(a.b, b.b))
        if a == b:
            return a
        raise NoGuess()

    def sub(self, t, i):
        if t is None:
            return None
        return t[2] if t[0] in ('v', 'a') else t[1][i]

    def data(self, da, db):
        """two byte lists -> list, or None when equal"""
        import interp as I
        r = None
        n = len(da)
        i = 0
        e = self.e
        while i < n:
            x, y = da[i], db[i]
            if x is y or (type(x) is type(y) and x == y):
                i += 1
                continue
            if r is None:
                r = list(da)
            if x is None or y is None:
                r[i] = None
                i += 1
                continue
            wa, wb = e.run_at(da, i), e.run_at(db, i)
            span = None
            for s in (wa, wb):
                if s is not None and s[0] == i and (span is None or s[1] > span[1]):
                    span = s
            if span is not None and any(z is None for z in da[i:i + span[1]] + db[i:i + span[1]]):
                span = None
            if span is not None and span[1] > 1:
                lo, ln = span
                va, vb = e.word(da, lo, ln), e.word(db, lo, ln)
                if va is not None and vb is not None and va is not I.UNDEF and vb is not I.UNDEF:
                    try:
                        v = self.val(va, vb, ('i', 8 * ln))
                        r[lo:lo + ln] = e.to_entries(v, ('i', 8 * ln) if type(v) in (int, T) else ('p',))
                        i = lo + ln
                        continue
                    except NoGuess:
                        if type(va) not in (int, T) or type(vb) not in (int, T):
                            r[lo:lo + ln] = [None] * ln
                            i = lo + ln
                            continue
            bx, by = I.entry_byte(x), I.entry_byte(y)
            if bx is None or by is None:
                r[i] = None
                i += 1
                continue
            try:
                v = self.bv(bx, by, 8)
            except NoGuess:
                v = tm.fresh('havoc', 8)
                self.havoc += 1
            r[i] = v if type(v) is int else (v, 0)
            i += 1
        return r


def _same(a, b):
    return a is b or (type(a) is not T and type(b) is not T and a == b)


def _cw(t):
    return t.args[0].w if type(t.args[0]) is T else t.args[1].w


def _eqc(c):
    """eq(A, const) -> (A, const) with the constant as a mathematical integer"""
    if c.op == 'eq' and type(c.args[0]) is T and type(c.args[1]) is not T and c.args[0].w <= 64:
        return c.args[0], c.args[1]
    return None


def suffix(p, q):
    """q = p + s -> s, else None"""
    n = len(p)
    if len(q) < n:
        return None
    for i in range(n):
        if p[i] is not q[i]:
            return None
    return list(q[n:])


_kn = [0]


def generalise(e, frame, head, hs, base):
    """hs: three successive arrivals (regs, state); base 0 or 1: which pair the guess is made from.
    -> None or (regs, state or None, close)"""
    import interp as I
    h0, h1, h2 = hs
    live = frame.fn.live[head]
    _kn[0] += 1
    K = tm.var('K!%d' % _kn[0], 64)
    s1 = suffix(h0[1].pc, h1[1].pc)
    s2 = suffix(h1[1].pc, h2[1].pc) if s1 is not None else None
    if s1 is None or s2 is None:
        return None
    s1 = e.flat_conj(s1)
    s2 = e.flat_conj(s2)
    if len(s1) != len(s2):
        return None
    g = Guess(e, K)
    # conditions: cK(K) is the condition assumed on the way to arrival K (K=1: s1, K=2: s2)
    cond = []
    for a, b in zip(s1, s2):
        try:
            cond.append(g.bv(a, b, 1))
        except NoGuess:
            cond.append(None)
    if None in cond:
        # conditions may come in a different order
        cond = []
        left = list(s2)
        for a in s1:
            for b in left:
                try:
                    c = g.bv(a, b, 1)
                except NoGuess:
                    continue
                cond.append(c)
                left.remove(b)
                break
            else:
                return None
    # g's parameter: 0 <-> arrival 1
    Km1 = sub(K, 1, 64)
    condK = [tm.subst(c, {K: Km1}) if type(c) is T else c for c in cond]
    condK = [c for c in condK if type(c) is T or not c]
    ga = Guess(e, K)
    A, B = (h0, h1) if base == 0 else (h1, h2)
    if base == 0:
        # what iteration k writes, from what iterations 0 and 1 wrote
        ga.x3 = third(e, h1, h2)
    regs = {}
    for k in A[0]:
        if k not in live:
            continue
        if k not in B[0]:
            return None
        try:
            regs[k] = ga.val(A[0][k], B[0][k], frame.rtype(k))
        except NoGuess:
            regs[k] = I.UNDEF
            if e.log:
                e.log('no guess for %s at %s: %r %r' % (k, head, A[0][k], B[0][k]))
    mem = {}
    changed = set()
    for oid, oa in A[1].mem.items():
        ob = B[1].mem.get(oid)
        if ob is None:
            continue
        if ob is oa or oa.data is None:
            mem[oid] = oa
            continue
        if ob.data is None or len(oa.data) != len(ob.data):
            return None
        r = ga.data(oa.data, ob.data)
        if r is None:
            mem[oid] = oa
            continue
        o = I.Obj(oa.size, oa.align, oa.base, oa.name, oa.kind)
        o.arr = oa.arr
        o.ro = oa.ro
        o.data = r
        changed.add(oid)
        mem[oid] = o
    info = {'wide': False}
    logw = writes(e, h0, h1, h2)

    def fillin():
        for oid, recs in logw.items():
            refill(e, K, base, A[1].mem[oid], h1[1].mem[oid], h2[1].mem[oid], mem, oid, recs, info['wide'], changed)
    if base:
        # the parameter of ga is 0 at arrival 1: shift so that K counts arrivals
        m = {K: Km1}
        regs = {k: subv(v, m) for k, v in regs.items()}
        for oid in changed:
            mem[oid].data = [x if x is None or type(x) is int else (subv(x[0], m), x[1]) for x in mem[oid].data]
            mem[oid].data = [canon(x) for x in mem[oid].data]
    fillin()
    affs = list(ga.aff)
    gaffs = [x for x in dict.fromkeys(g.aff) if x[2] == 64 and x[1] >> 63 and type(x[0]) is T]

    neqs = []
    for c in condK:
        if type(c) is T and c.op == 'not' and c.args[0].op == 'eq' and _cw(c.args[0]) == 64:
            x, y = [tm.unc(v) if type(v) is T else v for v in c.args[0].args]
            if type(y) is not T:
                x, y = sides(sub(x, y, 64))
            if x is not None:
                neqs += [ult(x, y, 64), ult(y, x, 64)]

    if e.log:
        e.log('conditions at %s: %s' % (head, [tm.show(c) for c in condK if type(c) is T]))

    def invs(kk):
        out = []
        n = sub(kk, base, 64) if base else kk
        for v, d, w in affs:
            if w < 32:
                continue
            sd = d - (1 << w) if d >> (w - 1) else d
            if abs(sd) > 1 << 20 or w != 64:
                out.append(1)
                continue
            if sd < 0:
                out.append(ule(mul(n, -sd, 64), v, 64))
            else:
                out.append(ule(v, add(v, mul(n, sd, 64), 64), 64) if type(v) is T else 1)
        # what the conditions compare did not wrap either
        for v, d, w in gaffs:
            c = ule(mul(sub(kk, 1, 64), (1 << 64) - d, 64), v, 64)
            out.append(or_(eq(kk, 0, 64), c, 1) if base == 0 else c)
        # a loop left on equality: the side it approaches from
        for c in neqs:
            c = tm.subst(c, {K: kk}) if kk is not K else c
            out.append(or_(eq(kk, 0, 64), c, 1) if base == 0 else c)
        return out
    maxd = max([1] + [abs(d - (1 << w) if d >> (w - 1) else d) for v, d, w in affs + gaffs if w == 64])
    lim = BOUND // min(maxd, 1 << 20)
    tm.BOUNDS[K.args[0]] = lim
    pc0 = list(hs[base][1].pc)     # every arrival from `base` on has come by arrival `base`
    # candidate invariants that hold at the base arrival
    start = hs[base][1]
    keep = []
    for i, c in enumerate(invs(base)):
        if type(c) is T:
            ok, _ = e.prove(start, c)
            if ok:
                keep.append(i)
        elif c:
            keep.append(i)
    def make():
        st = I.State()
        st.mem = dict(mem)
        st.pc = tuple(pc0)
        st.facts = dict(hs[base][1].facts)
        st.events = h2[1].events
        st.log = h0[1].log + (None,)
        iv = invs(K)
        conds = [ule(K, lim, 64)] + [iv[i] for i in keep]
        if base == 0:
            cc = tm.conj(condK)
            conds.append(or_(eq(K, 0, 64), cc, 1))
        else:
            conds.append(ule(base, K, 64))
            conds += condK
        for c in conds:
            if type(c) is not T:
                if not c:
                    return None
                continue
            st.pc = st.pc + (c,)
            e.add_fact(st, c, True)
        r, m = e.smt.check(list(st.pc), want_model=True)
        if r == 'unsat':
            return None
        if r != 'sat':
            raise I.Incomplete('solver undecided on a loop summary')
        st.models = [m]
        return st

    up = {K: add(K, 1, 64)}

    def loosen(ws):
        """leave open stack bytes that looked constant but change later; -> done"""
        todo = []
        for w in ws:
            if w is None:
                return False
            oid, lo, hi = w
            o = mem[oid]
            if o.kind != 'stack':
                return False
            for j in range(lo, hi):
                vs = [h[1].mem[oid].data[j] if oid in h[1].mem and h[1].mem[oid].data is not None else None for h in hs[base:base + 2]]
                vs = [I.entry_byte(x) if x is not None else None for x in vs + [o.data[j]]]
                vs = [x.args[0] if type(x) is T and x.op == 'const' else x for x in vs]
                if type(vs[0]) is not int or vs[1] != vs[0] or vs[2] != vs[0]:
                    return False
                todo.append((oid, j))
        info['loose'] = info.get('loose', 0) + len(todo)
        if not todo or info['loose'] > 64:
            return False
        for oid, j in todo:
            o = mem[oid]
            if oid not in changed or o is h0[1].mem.get(oid) or o is hs[base][1].mem.get(oid):
                n = I.Obj(o.size, o.align, o.base, o.name, o.kind)
                n.arr, n.ro = o.arr, o.ro
                n.data = list(o.data)
                mem[oid] = o = n
                changed.add(oid)
            o.data[j] = (tm.fresh('loose', 8), 0)
        if e.log:
            e.log('left open: %s' % todo[:8])
        return True

    def close(r, s):
        """-> True, False, or 'retry' after dropping an invariant"""
        K1 = add(K, 1, 64)
        dropped = False
        iv = invs(K1)
        for i in list(keep):
            c = iv[i]
            if type(c) is T:
                ok, _ = e.prove(s, c)
                if not ok:
                    keep.remove(i)
                    dropped = True
            elif not c:
                keep.remove(i)
                dropped = True
        if dropped:
            return 'retry'
        c = ule(K1, lim, 64)
        ok, _ = e.prove(s, c)
        if not ok:
            return False
        cs = [tm.subst(c, up) if type(c) is T else c for c in condK]
        cs = [c for c in cs if not e.norm(s, c) == 1 or type(e.norm(s, c)) is T]
        for c in cs:
            ok, _ = e.prove(s, c)
            if not ok:
                e.hints.append(('condition', s.pc + (not_(c),)))
                if e.log:
                    e.log('condition not inductive: %s' % tm.show(c))
                return False
        diffs = []
        where = []
        for k, v in regs.items():
            if v is I.UNDEF:
                continue
            if k not in r:
                return False
            if not same(e, s, subv(v, up), r[k], diffs, frame.rtype(k)):
                if e.log:
                    e.log('register %s differs: %r / %r' % (k, subv(v, up), r[k]))
                return False
        where += [None] * (len(diffs) - len(where))
        for oid, o in mem.items():
            ob = s.mem.get(oid)
            if ob is None or ob is o:
                if oid in changed and ob is o and dep(o.data, K):
                    pass
                elif ob is None or oid not in changed or not dep(o.data, K):
                    continue
            if ob.data is None:
                continue
            if not samedata(e, s, o.data, ob.data, up, diffs, where, oid):
                if e.log:
                    e.log('object %s differs' % o.name)
                return False
        where = [w for d, w in zip(diffs, where) if type(d) is T or d]
        diffs = [d for d in diffs if type(d) is T or d]
        if diffs:
            for i in range(0, len(diffs), 16):
                d = tm.disj(diffs[i:i + 16])
                ok, m = e.prove(s, not_(d))
                if not ok:
                    if logw and not info['wide']:
                        info['wide'] = True
                        fillin()
                        return 'retry'
                    if ok is False and m is not None and loosen([w for x, w in zip(diffs[i:i + 16], where[i:i + 16]) if type(x) is not T or m.val(x)]):
                        return 'retry'
                    if ok is not None:
                        e.hints.append(('location', s.pc + (d,) if type(d) is T else s.pc))
                    if e.log:
                        e.log('location not inductive')
                        if m is not None:
                            for x in diffs[i:i + 16]:
                                if m.val(x):
                                    e.log('   ' + tm.show(x, 8))
                                    break
                    return False
        return True

    return regs, make, close


def sides(d):
    """a linear combination split at the signs of its coefficients"""
    if type(d) is not T:
        return None, None
    c, l = tm._lin_parts(d, 64)
    l = list(zip(l[::2], l[1::2]))
    x, y = (c, 0) if not c >> 63 else (0, (1 << 64) - c)
    for t, k in l:
        if k >> 63:
            y = add(y, mul(t, (1 << 64) - k, 64), 64)
        else:
            x = add(x, mul(t, k, 64), 64)
    return x, y


def writes(e, h0, h1, h2):
    """objects whose bytes iteration k overwrites one after the other:
    oid -> [(offset of iteration 0, stride, contents of iteration 0, of iteration 1)]"""
    l0, l1, l2 = h0[1].log, h1[1].log, h2[1].log
    if l1[:len(l0)] != l0 or l2[:len(l1)] != l1:
        return {}
    w1, w2 = l1[len(l0):], l2[len(l1):]
    if len(w1) != len(w2) or None in w1 or None in w2:
        return {}
    r = {}
    for (o1, f1, b1), (o2, f2, b2) in zip(w1, w2):
        if o1 != o2 or len(b1) != len(b2) or o1 not in h0[1].mem:
            return {}
        d = sub(f2, f1, 64)
        if type(d) is T:
            return {}
        d = d - (1 << 64) if d >> 63 else d
        if abs(d) != len(b1) or len(b1) & (len(b1) - 1):
            return {}
        r.setdefault(o1, []).append((f1, d, b1, b2))
    return r


def refill(e, K, base, oa, o1, o2, mem, oid, recs, wide, changed):
    import interp as I
    src = oa.data
    idx = [t for t in range(oa.size) if oa.data[t] is not o1.data[t] or o1.data[t] is not o2.data[t]]
    if not idx:
        return
    if wide:
        idx = [t for t in range(oa.size) if src[t] is None or I.entry_byte(src[t]) is not None]
    else:
        idx = range(min(idx), max(idx) + 1)
    o = mem[oid]
    if oid not in changed:
        n = I.Obj(o.size, o.align, o.base, o.name, o.kind)
        n.arr = o.arr
        n.ro = o.ro
        n.data = list(o.data)
        mem[oid] = o = n
        changed.add(oid)
    vals = []
    for f, d, b1, b2 in recs:
        g = Guess(e, K)
        l = []
        for x, y in zip(b1, b2):
            try:
                l.append(g.bv(x, y, 8))
            except NoGuess:
                return
        vals.append(l)
    for t in idx:
        v = src[t]
        if v is not None:
            v = I.entry_byte(v)
            if v is None:
                continue
        for (f, d, b1, b2), l in zip(recs, vals):
            n = len(b1)
            fb = add(f, base * d, 64)
            rel = sub(t, fb, 64) if d > 0 else sub(add(fb, n - 1, 64), t, 64)
            kk = tm.lshr(rel, n.bit_length() - 1, 64)
            pos = 0
            x = None
            for j in range(n):
                y = l[j] if d > 0 else l[n - 1 - j]
                y = tm.subst(y, {K: add(kk, base, 64)}) if type(y) is T else y
                x = y if x is None else ite(eq(tm.and_(rel, n - 1, 64), j, 64), y, x, 8)
            done = ult(kk, sub(K, base, 64), 64)
            v = x if v is None else ite(done, x, v, 8)
        if v is not None:
            o.data[t] = v if type(v) is int else (v, 0)


def third(e, h1, h2):
    """maps the byte written by iteration 0 to the byte written by iteration k, from the byte at
    the next index that iteration 1 wrote"""
    idx = {}

    def f(x, kk):
        return x if type(x) is not T else _step(x, kk)

    def _step(x, kk):
        # contents that move with the index: sel(arr, off) -> sel(arr, off + kk)
        if x.op == 'sel' and x.args[0] in moving:
            return tm.sel(x.args[0], add(x.args[1], kk, 64))
        return x
    moving = set()
    # an array whose element index advances by one between the two iterations
    for oid, ob in h2[1].mem.items():
        oa = h1[1].mem.get(oid)
        if oa is None or oa is ob or oa.data is None or ob.data is None or len(oa.data) != len(ob.data):
            continue
        for x, y in zip(oa.data, ob.data):
            if type(y) is tuple and type(y[0]) is T and y[0].op == 'ite' and y[0].w == 8 and type(x) is tuple and y[0].args[2] is x[0] and type(x[0]) is T and x[0].op == 'ite':
                p, q = x[0].args[1], y[0].args[1]
                if type(p) is T and type(q) is T and p.op == 'sel' and q.op == 'sel' and p.args[0] == q.args[0]:
                    if sub(q.args[1], p.args[1], 64) == 1:
                        moving.add(p.args[0])
    return f


def canon(x):
    if type(x) is tuple and type(x[0]) is int:
        return x
    return x


def subv(v, m):
    import interp as I
    if type(v) is T:
        return tm.subst(v, m)
    if type(v) is I.Ptr:
        return I.Ptr(v.obj, subv(v.off, m)) if type(v.off) is T else v
    if type(v) is I.Vec or type(v) is I.Agg:
        return type(v)([subv(x, m) for x in v.e])
    if type(v) is I.PIte:
        c = subv(v.c, m)
        if type(c) is not T:
            return subv(v.a if c else v.b, m)
        return I.PIte(c, subv(v.a, m), subv(v.b, m))
    return v


def dep(data, K):
    n = K.args[0]
    for x in data:
        if type(x) is tuple:
            v = x[0]
            if type(v) is T:
                if n in tm.leaves(v):
                    return True
            elif hasattr(v, 'off') and type(v.off) is T and n in tm.leaves(v.off):
                return True
    return False


def same(e, s, a, b, diffs, t=None):
    import interp as I
    if a is I.UNDEF or a is b:
        return True
    if type(a) in (int, T) and type(b) in (int, T):
        w = a.w if type(a) is T else b.w if type(b) is T else 64
        if type(a) is not T and type(b) is not T:
            return a == b
        b = e.norm(s, b)
        a = e.norm(s, a)
        if type(a) is not T and type(b) is not T:
            return a == b
        d = tm.ne(a, b, w)
        if type(d) is not T:
            return d == 0
        # the same uninterpreted function: compare the arguments
        da = argdiff(a, b, w)
        diffs.append(d if da is None else da)
        return True
    if type(a) is not type(b):
        return False
    if type(a) is I.Ptr:
        return a.obj == b.obj and same(e, s, a.off, b.off, diffs)
    if type(a) is I.Vec or type(a) is I.Agg:
        return len(a.e) == len(b.e) and all(same(e, s, x, y, diffs) for x, y in zip(a.e, b.e))
    if type(a) is I.PIte:
        return same(e, s, a.c, b.c, diffs) and same(e, s, a.a, b.a, diffs) and same(e, s, a.b, b.b, diffs)
    return a == b


def argdiff(a, b, w):
    """a condition implied to hold whenever a != b, from the arguments (sound for proving equality)"""
    if type(a) is T and type(b) is T and a.op == b.op:
        if a.op == 'uf' and a.args[0] == b.args[0]:
            l = []
            for (x, vw), (y, _) in zip(a.args[1], b.args[1]):
                l.append(tm.ne(x, y, vw))
            return tm.disj(l)
        if a.op == 'sel' and a.args[0] == b.args[0]:
            return tm.ne(a.args[1], b.args[1], 64)
        if a.op == 'ext' and a.args[1] == b.args[1] and a.args[0].op == 'uf':
            return argdiff(a.args[0], b.args[0], a.args[0].w)
    return None


def samedata(e, s, ga, bd, up, diffs, where=None, oid=None):
    import interp as I
    if len(ga) != len(bd):
        return False
    i = 0
    n = len(ga)
    mark = lambda lo: where is not None and where.extend([(oid, lo, i)] * (len(diffs) - len(where)))
    last = 0
    while i < n:
        mark(last)
        last = i
        x, y = ga[i], bd[i]
        if x is None or type(x) is tuple and type(x[0]) is T and x[0].op == 'var' and x[0].args[0].startswith('loose!'):
            i += 1
            continue
        w = e.run_at(ga, i)
        if w is not None and w[0] == i:
            ln = w[1]
            a = subv(ga[i][0], up)
            b = e.word(bd, i, ln)
            if b is not None and b is not I.UNDEF:
                if type(a) in (int, T) and type(b) in (int, T) and ln >= 1:
                    if not same(e, s, a, b, diffs):
                        return False
                    i += ln
                    continue
                if not same(e, s, a, b, diffs):
                    return False
                i += ln
                continue
            if b is I.UNDEF:
                return False
        a = I.entry_byte(x)
        b = I.entry_byte(y) if y is not None else None
        if a is None or b is None:
            if type(x) is tuple and type(y) is tuple and x[1] == y[1] and x[0] == y[0]:
                i += 1
                continue
            return False
        if not same(e, s, subv(a, up) if type(a) is T else a, b, diffs):
            return False
        i += 1
    mark(last)
    return True
