"""Hash streams: the abstraction the solver uses above the compression function.

A stream s is an initial chaining value and a message (a function of the byte index).  H:s(e, i) is
word i of the chaining value after the first e whole blocks, D:s(n, l, i) word i of the result of
finalising it as a message of n bytes with last-node flag l:

    H:s(0, i)     = initial word i
    H:s(e+1, .)   = F(H:s(e, .), block e, 64(e+1), 0, 0)
    D:s(n, l, .)  = F(H:s(e, .), block e cut at n and zero padded, n, ~0, l ? ~0 : 0),
                    64e < n <= 64(e+1), or n = e = 0

At every call of the compression function the solver has to show that the arguments are those of one of
these two equations; a call that fits neither is kept as an application of the uninterpreted F.
"""
import terms as tm
from terms import T, eq, ult, ule, ite, and_, or_, not_, add, sub, ext, shl


class Stream(object):
    def __init__(self, sid, init, byte, last=None):
        self.sid = sid
        self.H = 'H:' + sid
        self.D = 'D:' + sid
        self.init = list(init)
        self.twin = None
        self.byte = byte          # byte(index) -> 8-bit value; index is a 64-bit value
        tm.PUSH.add(self.H)
        tm.PUSH.add(self.D)
        tm.INIT[self.H] = self.init

    def share(self, other):
        """the first blocks are equal"""
        self.twin = other
        tm.TWIN[self.H] = other.H

    def h(self, e):
        if self.twin and e == 1:
            return self.twin.h(1)
        return [tm.uf(self.H, ((e, 64), (i, 8)), 32) for i in range(8)]

    def d(self, n, l):
        return [tm.uf(self.D, ((n, 64), (l, 1), (i, 8)), 32) for i in range(8)]


def wbytes(ws):
    return [ext(w, 8 * k, 8) for w in ws for k in range(4)]


class Layer(object):
    def __init__(self, eng):
        self.e = eng
        self.streams = {}
        self.byH = {}
        self.stats = dict(absorb=0, final=0, opaque=0, obligations=0)

    def add(self, s):
        self.streams[s.sid] = s
        self.byH[s.H] = s
        return s

    # -------------------------------------------------------- recognising a chaining value
    def position(self, st, h, blk):
        """-> list of candidate (stream, e)"""
        e = self.e
        h = [e.norm(st, x) if type(x) is T else x for x in h]
        a = h[0]
        if type(a) is T and a.op == 'uf' and a.args[0] in self.byH:
            s = self.byH[a.args[0]]
            k = a.args[1][0][0]
            for i, x in enumerate(h):
                if not (type(x) is T and x.op == 'uf' and x.args[0] == a.args[0] and x.args[1][1][0] == i and _same(x.args[1][0][0], k)):
                    return []
            c = [(s, k)]
            if k == 1:
                c += [(t, k) for t in self.streams.values() if t.twin is s]
                self.sort(c, blk)
            return c
        c = []
        for s in self.streams.values():
            if all(_same(x, y) for x, y in zip(h, s.init)):
                c.append((s, 0))
        if not c:
            for s in self.streams.values():
                if any(type(x) is T for x in h) and any(type(y) is T for y in s.init):
                    d = tm.conj([eq(x, y, 32) for x, y in zip(h, s.init)])
                    if type(d) is T and self.prove(st, d):
                        c.append((s, 0))
                        self.rename(s, h, d)
        if len(c) > 1:
            self.sort(c, blk)
        return c

    def sort(self, c, blk):
        lv = set()
        for b in blk:
            if type(b) is T:
                lv |= tm.leaves(b)
        c.sort(key=lambda x: 0 if self.owns(x[0], lv) else 1)

    base = ()
    trip = None       # called with the state of every compression

    def rename(self, s, h, d):
        """the code's own terms for the initial words, if they are equal on every path"""
        if self.base and self.e.smt.check(list(self.base) + [tm.not_(d)])[0] == 'unsat':
            s.init = list(h)
            tm.INIT[s.H] = s.init

    def owns(self, s, lv):
        lv = set(l for l in lv if l[0] in '@$')
        return any(type(b) is T and bool(tm.leaves(b) & lv) for b in (s.byte(0), s.byte(64)))

    def prove(self, st, c):
        self.stats['obligations'] += 1
        ok, m = self.e.prove(st, c)
        if ok is None:
            import interp
            raise interp.Incomplete('solver undecided on a block equality')
        return ok

    # -------------------------------------------------------- the compression function
    def compress(self, st, h, blk, count, f0, f1):
        """h: 8 words, blk: 64 bytes -> list of (state, 8 words)"""
        e = self.e
        if self.trip:
            self.trip(st)
        norm = lambda v: e.norm(st, v) if type(v) is T else v
        count, f0, f1 = norm(count), norm(f0), norm(f1)
        cands = self.position(st, h, blk)
        for s, k in cands:
            r = self.fit(st, s, k, blk, count, f0, f1)
            if r is not None:
                return r
        return [(st, self.opaque(h, blk, count, f0, f1))]

    def opaque(self, h, blk, count, f0, f1):
        self.stats['opaque'] += 1
        ws = [tm.cat([(b, 8) for b in blk[4 * i:4 * i + 4]]) for i in range(16)]
        a = tuple((x, 32) for x in h) + tuple((x, 32) for x in ws) + ((count, 64), (f0, 32), (f1, 32))
        return [tm.uf('F', a + ((i, 8),), 32) for i in range(8)]

    def fit(self, st, s, k, blk, count, f0, f1):
        e = self.e
        M = 0xffffffff
        # which equation?  the flag decides
        isf = eq(f0, M, 32)
        isn = eq(f0, 0, 32)
        out = []
        a, rest = e.branch(st, isn)
        if a is not None:
            out += self.absorb(a, s, k, blk, count, f1)
        if rest is not None:
            b, rest = e.branch(rest, isf)
            if b is not None:
                out += self.final(b, s, k, blk, count, f1)
        if rest is not None:
            out.append((rest, self.opaque(s.h(k) if k != 0 else s.init, blk, count, f0, f1)))
        return out

    def absorb(self, st, s, k, blk, count, f1):
        base = shl(k, 6, 64)
        conds = [eq(count, add(base, 64, 64), 64), eq(f1, 0, 32)]
        want = [s.byte(add(base, j, 64)) for j in range(64)]
        return self.decide(st, conds, blk, want, lambda: s.h(add(k, 1, 64)), 'absorb', s, k, count, 0, f1)

    def final(self, st, s, k, blk, count, f1):
        base = shl(k, 6, 64)
        M = 0xffffffff
        left = sub(count, base, 64)
        conds = [or_(and_(ult(base, count, 64), ule(left, 64, 64), 1), and_(eq(k, 0, 64), eq(count, 0, 64), 1), 1)]
        l = eq(f1, M, 32)
        conds.append(or_(eq(f1, 0, 32), l, 1))
        want = [ite(ult(j, left, 64), s.byte(add(base, j, 64)), 0, 8) for j in range(64)]
        return self.decide(st, conds, blk, want, lambda: s.d(count, l), 'final', s, k, count, M, f1)

    def decide(self, st, conds, blk, want, res, kind, s, k, count, f0, f1):
        """fork on whether the call is what the equation says"""
        e = self.e
        self.stats['obligations'] += 1
        bad = [not_(c) for c in conds]
        for x, y in zip(blk, want):
            d = self.bytediff(st, x, y)
            if type(d) is T or d:
                bad.append(d)
        left = []
        for d in bad:
            d = e.norm(st, d) if type(d) is T else d
            if type(d) is T or d:
                left.append(d)
        bad = []
        for i in range(0, len(left), 8):
            c = tm.disj(left[i:i + 8])
            if type(c) is not T:
                bad.append(c)
                continue
            ok, m = e.prove(st, not_(c))
            if ok is None:
                for d in left[i:i + 8]:
                    ok, m = e.prove(st, not_(d)) if type(d) is T else (False, None)
                    if not ok:
                        bad.append(d)
            elif not ok:
                bad.append(c)
        bad = tm.disj(bad)
        if type(bad) is not T:
            g, b = (None, st) if bad else (st, None)
        else:
            g, b = e.branch(st, not_(bad))
        out = []
        if g is not None:
            self.stats[kind] += 1
            out.append((g, res()))
        if b is not None:
            if len(e.hints) < 200:
                e.hints.append((kind, b.pc))
            h = s.h(k) if not (type(k) is int and k == 0) else s.init
            out.append((b, self.opaque(h, blk, count, f0, f1)))
        return out

    def bytediff(self, st, x, y):
        """a condition implied by x != y (exact except that different places of one input are
        taken to hold different bytes)"""
        x = self.e.norm(st, x) if type(x) is T else x
        y = self.e.norm(st, y) if type(y) is T else y
        if _same(x, y):
            return 0
        return diff8(x, y, 0)


def diff8(x, y, depth):
    if _same(x, y):
        return 0
    if type(y) is T and y.op == 'ite':
        return ite(y.args[0], diff8(x, y.args[1], depth + 1), diff8(x, y.args[2], depth + 1), 1)
    if type(x) is T and x.op == 'ite':
        return ite(x.args[0], diff8(x.args[1], y, depth + 1), diff8(x.args[2], y, depth + 1), 1)
    if type(x) is T and type(y) is T:
        if x.op == 'sel' and y.op == 'sel' and x.args[0] == y.args[0]:
            return tm.ne(x.args[1], y.args[1], 64)
        if x.op == 'ext' and y.op == 'ext' and x.args[1] == y.args[1]:
            a, b = x.args[0], y.args[0]
            if a.op == 'uf' and b.op == 'uf' and a.args[0] == b.args[0]:
                return tm.disj([tm.ne(p, q, w) for (p, w), (q, _) in zip(a.args[1], b.args[1])])
    return tm.ne(x, y, 8)


def _same(a, b):
    return a is b or (type(a) is not T and type(b) is not T and a == b)


# ---------------------------------------------------------------- hooking the kernels

def words_at(e, st, p, n=8):
    v = e.load(st, p, ('a', n, ('i', 32)), 4)
    return list(v.e)


def pointee(eng, prog, static):
    """symbol of the function a harness static points to"""
    import interp as I
    m, g = prog.find_global('@' + static, None)
    if g is None:
        return None
    p = eng.globalref('@' + static, m)
    f = eng.global_objs[p.obj].data[0]
    return f[0].name if type(f) is tuple and type(f[0]) is I.Fn else None


def install(eng, layer, prog, which=None):
    """route the kernels that have a public name to the stream layer; -> names hooked"""
    import interp as I
    hooked = {}

    def sym(static):
        return pointee(eng, prog, static)

    def bytes_at(fr, st, p):
        return fr.bytes_at(st, p, 64)

    def k1(e, st, vals, ins, fr):
        return lanes(e, st, fr, [vals[0]], [vals[1]], [vals[2]], [vals[3]], [vals[4]], ins)

    def k8(e, st, vals, ins, fr):
        return lanes(e, st, fr, vals[0:8], vals[8:16], vals[16:24], vals[24:32], vals[32:40], ins)

    def feat(e, name, st):
        if e.check_features:
            for fn in closure(prog, name):
                e.need_features(st, fn)

    def lanes(e, st, fr, hs, ms, cs, f0s, f1s, ins):
        sts = [(st, [])]
        n = len(hs)
        # read everything before anything is written
        hv = [words_at(e, st, h) for h in hs]
        bv = [bytes_at(fr, st, m) for m in ms]
        for v in hv + bv + [cs, f0s, f1s]:
            if any(x is I.UNDEF for x in v):
                e.fault(st, 'ub', 'compression of an uninitialised value')
                return []
        for i in range(n):
            nxt = []
            for s, outs in sts:
                for s2, w in layer.compress(s, hv[i], bv[i], cs[i], f0s[i], f1s[i]):
                    nxt.append((s2, outs + [w]))
            sts = nxt
        res = []
        for s, outs in sts:
            for h, w in zip(hs, outs):
                e.store(s, h, I.Agg(w), ('a', 8, ('i', 32)), 4)
            res.append((s, None))
        return res

    def k8v(e, st, vals, ins, fr):
        # transposed words: word i of lane j at [i][j]
        words = [words_at(e, st, e_padd(fr, st, vals[0], 32 * i)) for i in range(8)]
        bv = [bytes_at(fr, st, m) for m in vals[1:9]]
        cl, ch, f0, f1 = [words_at(e, st, p) for p in vals[9:13]]
        for v in words + bv + [cl, ch, f0, f1]:
            if any(x is I.UNDEF for x in v):
                e.fault(st, 'ub', 'compression of an uninitialised value')
                return []
        sts = [(st, [])]
        for j in range(8):
            nxt = []
            for s, outs in sts:
                c = tm.cat([(cl[j], 32), (ch[j], 32)])
                for s2, w in layer.compress(s, [words[i][j] for i in range(8)], bv[j], c, f0[j], f1[j]):
                    nxt.append((s2, outs + [w]))
            sts = nxt
        res = []
        for s, outs in sts:
            for i in range(8):
                e.store(s, e_padd(fr, s, vals[0], 32 * i), I.Agg([outs[j][i] for j in range(8)]), ('a', 8, ('i', 32)), 4)
            res.append((s, None))
        return res

    def kt(n, blocks):
        def g(e, st, vals, ins, fr):
            sz = 4 * n
            al = sz
            words = [words_at(e, st, e_padd(fr, st, vals[0], sz * i), n) for i in range(8)]
            if blocks:
                bv = [bytes_at(fr, st, m) for m in vals[1:1 + n]]
                rest = vals[1 + n:]
            else:
                mv = [words_at(e, st, e_padd(fr, st, vals[1], sz * i), n) for i in range(16)]
                if any(x is I.UNDEF for v in mv for x in v):
                    e.fault(st, 'ub', 'compression of an uninitialised value')
                    return []
                bv = [[tm.ext(mv[i][j], 8 * k, 8) for i in range(16) for k in range(4)] for j in range(n)]
                rest = vals[2:]
            cl, ch, f0, f1 = [words_at(e, st, p, n) for p in rest]
            for v in words + bv + [cl, ch, f0, f1]:
                if any(x is I.UNDEF for x in v):
                    e.fault(st, 'ub', 'compression of an uninitialised value')
                    return []
            sts = [(st, [])]
            for j in range(n):
                nxt = []
                for s, outs in sts:
                    c = tm.cat([(cl[j], 32), (ch[j], 32)])
                    for s2, w in layer.compress(s, [words[i][j] for i in range(8)], bv[j], c, f0[j], f1[j]):
                        nxt.append((s2, outs + [w]))
                sts = nxt
            res = []
            for s, outs in sts:
                for i in range(8):
                    e.store(s, e_padd(fr, s, vals[0], sz * i), I.Agg([outs[j][i] for j in range(n)]), ('a', n, ('i', 32)), 4)
                res.append((s, None))
            return res
        return g

    def e_padd(fr, st, p, o):
        return fr.padd(st, p, o)

    def wrap(f, name):
        def g(e, st, vals, ins, fr):
            feat(e, name, st)
            e.funcs_run['[F] ' + name] = e.funcs_run.get('[F] ' + name, 0) + 1
            return f(e, st, vals, ins, fr)
        return g
    for static, f in (('KP_PORTABLE1', k1), ('KP_SSE41_1', k1), ('KP_PORTABLE8', k8), ('KP_AVX2_8', k8), ('KP_AVX2_8V', k8v)):
        if which is not None and static not in which:
            continue
        n = sym(static)
        if n is None:
            continue
        # what the static points to may be a shim around the kernel
        eng.hooks[n] = wrap(f, n)
        hooked[static] = n
    # the transposed kernels have no pointer of their own: by name, where the shape fits; whoever relies on
    # them shows with kern.verify that what was routed here computes F
    for suf, f, n in (('compress8_transposed_inline', kt(8, False), 6), ('compress8_transposed_all', kt(8, False), 6),
                      ('compress4_transposed_inline', kt(4, True), 9), ('compress4_transposed', kt(4, True), 9)):
        if which is not None and 'transposed' not in which:
            continue
        for name in prog.names():
            if name.endswith(str(len(suf)) + suf) and name not in eng.hooks:
                fn = prog.find(name)
                if fn is not None and fn.ret == ('void',) and [t for t, _ in fn.params] == [('p',)] * n:
                    eng.hooks[name] = wrap(f, name)
                    hooked.setdefault('transposed', []).append(name)
    return hooked


_closures = {}


def closure(prog, name):
    """functions reached by direct calls from a routed kernel, one for each set of features"""
    if name in _closures:
        return _closures[name]
    seen = {name}
    todo = [name]
    out = {}
    while todo:
        x = todo.pop(0)
        fn = prog.find(x)
        if fn is None:
            continue
        if fn.features:
            out.setdefault(frozenset(fn.features), fn)
        for b in fn.blocks.values():
            for ins in b:
                if ins[0] == 'call' and type(ins[3]) is not str and ins[3].k == 'global' and ins[3].v not in seen:
                    seen.add(ins[3].v)
                    todo.append(ins[3].v)
    _closures[name] = list(out.values())
    return _closures[name]
