"""Bit-vector terms as linear integer arithmetic.

A w-bit value is an integer in [0, 2^w).  Sums wrap through an explicit quotient that interval
analysis removes where no wrap is possible, so the meaning is exactly that of the bit-vectors.
Terms outside the fragment (xor, general masks, variable shifts) raise NotLinear; the caller then
uses the bit-vector solver.
"""
import z3
import terms as tm
from terms import T, mask


class NotLinear(Exception):
    pass


class Lia(object):
    def __init__(self):
        self.memo = {}
        self.bad = set()
        self.iv = {}
        self.side = {}       # T -> tuple of side constraints of this node alone
        self.allside = {}    # root -> tuple of T nodes with side constraints
        self.funcs = {}
        self.quot = {}
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return z3.Int('%s~%d' % (p, self.n))

    def func(self, name, ws, w):
        k = (name, ws, w)
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function('%s/%d' % (name, len(self.funcs)), *([z3.IntSort() if i > 1 else z3.BoolSort() for i in ws] + [z3.IntSort() if w > 1 else z3.BoolSort()]))
            self.funcs[k] = f
        return f

    def tr(self, t):
        """-> (expr, list of side constraints)"""
        if type(t) is not T:
            return t, ()
        r = self.allside.get(t)
        if r is None:
            if t in self.bad:
                raise NotLinear()
            nodes = tm.topo([t])
            for x in nodes:
                if x not in self.memo:
                    if x in self.bad:
                        raise NotLinear()
                    try:
                        self.memo[x] = self._tr(x)
                    except NotLinear:
                        self.bad.add(x)
                        self.bad.add(t)
                        raise
            r = tuple(x for x in nodes if self.side.get(x))
            self.allside[t] = r
        return self.memo[t], r

    def addside(self, x, *cs):
        self.side[x] = self.side.get(x, ()) + cs

    # value as an integer expression
    def g(self, v):
        return self.memo[v] if type(v) is T else z3.IntVal(v)

    def gb(self, v):
        return self.memo[v] if type(v) is T else z3.BoolVal(bool(v))

    def gi(self, v, w):
        """as integer even if 1 bit"""
        if type(v) is not T:
            return z3.IntVal(v)
        if v.w == 1:
            return z3.If(self.memo[v], z3.IntVal(1), z3.IntVal(0))
        return self.memo[v]

    def ivl(self, v):
        if type(v) is not T:
            return v, v
        return self.iv.get(v, (0, mask(v.w)))

    def cut(self, x, c, owner):
        """x div 2^c as an integer (x a w-bit term)"""
        if c == 0:
            return self.memo[x]
        if c >= x.w:
            return z3.IntVal(0)
        lo, hi = self.ivl(x)
        if hi < 1 << c:
            return z3.IntVal(0)
        k = (x, c)
        q = self.quot.get(k)
        if q is None:
            q = self.fresh('q')
            self.quot[k] = q
            e = self.memo[x]
            d = e - q * (1 << c)
            self.addside(x, d >= 0, d < (1 << c), q >= (lo >> c), q <= (hi >> c))
            # relate the cuts of one value to each other: they are all linear in x
        return q

    def _tr(self, x):
        op = x.op
        a = x.args
        w = x.w
        g = self.g
        if op == 'var':
            if w == 1:
                return z3.Bool(a[0])
            v = z3.Int(a[0])
            # a bound that every use of the variable is subject to
            hi = min(mask(w), tm.BOUNDS.get(a[0].split('.')[0], mask(w)))
            self.iv[x] = (0, hi)
            self.addside(x, v >= 0, v <= hi)
            return v
        if op == 'const':
            self.iv[x] = (a[0], a[0])
            return z3.IntVal(a[0]) if w > 1 else z3.BoolVal(bool(a[0]))
        if op == 'lin':
            its = a[1]
            c = a[0]
            if c >> (w - 1) and its:
                c -= 1 << w
            lo = hi = c
            r = []
            for i in range(0, len(its), 2):
                k = its[i + 1]
                if k >> (w - 1):
                    k -= 1 << w
                l, h = self.ivl(its[i])
                lo += k * (l if k > 0 else h)
                hi += k * (h if k > 0 else l)
                y = self.gi(its[i], w)
                r.append(y if k == 1 else y * k)
            if c:
                r.append(z3.IntVal(c))
            s = z3.Sum(*r) if len(r) > 1 else r[0]
            return self.wrap(x, s, lo, hi, w)
        if op == 'add':
            l0, h0 = self.ivl(a[0])
            l1, h1 = self.ivl(a[1])
            return self.wrap(x, g(a[0]) + g(a[1]), l0 + l1, h0 + h1, w)
        if op == 'cat':
            r = []
            pos = lo = hi = 0
            for p in a:
                l, h = self.ivl(p)
                lo += l << pos
                hi += h << pos
                if not (l == h == 0):
                    y = self.gi(p, p.w)
                    r.append(y if pos == 0 else y * (1 << pos))
                pos += p.w
            self.iv[x] = (lo, hi)
            if not r:
                return z3.IntVal(0)
            return z3.Sum(*r) if len(r) > 1 else r[0]
        if op == 'ext':
            b, o = a[0], a[1]
            l, h = self.ivl(b)
            q1 = self.cut(b, o, x)
            q2 = self.cut(b, o + w, x) if o + w < b.w else None
            if h < 1 << (o + w):
                q2 = None
                if w > 1:
                    self.iv[x] = (l >> o, h >> o)
            e = q1 if q2 is None else q1 - q2 * (1 << w)
            if w == 1:
                return e == 1
            return e
        if op == 'sext':
            b = a[0]
            if b.w == 1:
                return z3.If(self.memo[b], z3.IntVal(mask(w)), z3.IntVal(0))
            v = self.memo[b]
            return z3.If(v >= (1 << (b.w - 1)), v + ((1 << w) - (1 << b.w)), v)
        if op == 'ite':
            if w == 1:
                return z3.If(self.memo[a[0]], self.gb(a[1]), self.gb(a[2]))
            l0, h0 = self.ivl(a[1])
            l1, h1 = self.ivl(a[2])
            self.iv[x] = (min(l0, l1), max(h0, h1))
            return z3.If(self.memo[a[0]], g(a[1]), g(a[2]))
        if op == 'not':
            return z3.Not(self.memo[a[0]])
        if op == 'and':
            return z3.And(*[self.memo[y] for y in a])
        if op == 'or':
            return z3.Or(*[self.memo[y] for y in a])
        if op == 'xor' and w == 1:
            r = None
            for y in a[1]:
                r = self.memo[y] if r is None else z3.Xor(r, self.memo[y])
            return z3.Not(r) if a[0] else r
        if op == 'eq':
            cw = a[0].w if type(a[0]) is T else a[1].w
            if cw == 1:
                return self.gb(a[0]) == self.gb(a[1])
            return g(a[0]) == g(a[1])
        if op == 'ult':
            return self.gi(a[0], 64) < self.gi(a[1], 64)
        if op == 'slt':
            cw = a[0].w if type(a[0]) is T else a[1].w

            def sg(v):
                if type(v) is not T:
                    return z3.IntVal(v - (1 << cw) if v >> (cw - 1) else v)
                e = self.memo[v]
                return z3.If(e >= (1 << (cw - 1)), e - (1 << cw), e)
            return sg(a[0]) < sg(a[1])
        if op in ('udiv', 'urem') and type(a[1]) is not T and a[1] and w > 1:
            k = (a[0], 'd%d' % a[1])
            q = self.quot.get(k)
            if q is None:
                q = self.fresh('q')
                self.quot[k] = q
                l, h = self.ivl(a[0])
                d = self.memo[a[0]] - q * a[1]
                self.addside(a[0], d >= 0, d < a[1], q >= l // a[1], q <= h // a[1])
            return q if op == 'udiv' else self.memo[a[0]] - q * a[1]
        if op == 'sel':
            r = self.func('@' + a[0], (64,), 8)(g(a[1]))
            self.addside(x, r >= 0, r <= 255)
            return r
        if op == 'uf':
            ws = tuple(vw for _, vw in a[1])
            r = self.func('$' + a[0], ws, w)(*[g(v) if vw > 1 else self.gb(v) for v, vw in a[1]])
            if w > 1:
                self.addside(x, r >= 0, r <= mask(w))
            return r
        raise NotLinear()

    def wrap(self, x, s, lo, hi, w):
        m = 1 << w
        if lo >= 0 and hi < m:
            self.iv[x] = (lo, hi)
            return s
        ql, qh = lo // m, hi // m
        if ql == qh:
            self.iv[x] = (lo - ql * m, hi - ql * m)
            return s - ql * m
        q = self.fresh('w')
        r = s - q * m
        self.addside(x, r >= 0, r < m, q >= ql, q <= qh)
        return r

    def sides(self, roots):
        seen = set()
        out = []
        for t in roots:
            for x in self.allside.get(t, ()):
                if x not in seen:
                    seen.add(x)
                    out += self.side[x]
        return out
