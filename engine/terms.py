"""Hash-consed bit-vector terms with light normalisation.

A value is a Python int (a constant; its width is known from context) or a T.
Booleans are 1-bit values.  Normalisation is only ever an identity of
fixed-width bit-vector arithmetic; everything else is left to the solver.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_n = 0
# RAW: no associative/commutative normalisation of sums (used when the solver,
# not the normaliser, is to justify such identities).
RAW = [False]


class T(object):
    __slots__ = ('op', 'args', 'w', 'id', 'depth', '_h')

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (_mk_pickle, (self.op, self.args, self.w))


def _mk_pickle(op, args, w):
    return mk(op, args, w)


def mk(op, args, w):
    global _n
    k = (op, args, w)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.w = w
    _n += 1
    t.id = _n
    t._h = _n
    d = 0
    for a in args:
        if type(a) is T:
            if a.depth > d:
                d = a.depth
        elif type(a) is tuple:
            for b in a:
                if type(b) is T and b.depth > d:
                    d = b.depth
    t.depth = d + 1
    _tab[k] = t
    return t


def show(t, d=6):
    if type(t) is not T:
        return hex(t) if isinstance(t, int) and t > 9 else str(t)
    if t.op == 'var':
        return t.args[0]
    if t.op == 'const':
        return '%d:%x' % (t.w, t.args[0])
    if d == 0:
        return '#%d' % t.id
    return '%s%d(%s)' % (t.op, t.w, ', '.join(
        show(a, d - 1) if not isinstance(a, tuple) else
        '[' + ', '.join(show(b, d - 1) for b in a) + ']' for a in t.args))


def mask(w):
    return (1 << w) - 1


def var(name, w):
    return mk('var', (name,), w)


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (prefix, _fresh[0]),), w)


def const(v, w):
    return mk('const', (v & mask(w),), w)


def unc(t):
    """const node -> int"""
    if type(t) is T and t.op == 'const':
        return t.args[0]
    return t


# ---------------------------------------------------------------- cat / ext

def _asT(v, w):
    if type(v) is T:
        return v
    return mk('const', (v & ((1 << w) - 1),), w)


def cat(pieces):
    """pieces: list of (value, width), least significant first."""
    out = []
    for v, w in pieces:
        if w == 0:
            continue
        if type(v) is T:
            if v.op == 'cat':
                for p in v.args:
                    _catpush(out, p)
                continue
            _catpush(out, v)
        else:
            _catpush(out, mk('const', (v & ((1 << w) - 1),), w))
    if len(out) == 1:
        return unc(out[0])
    w = 0
    for p in out:
        w += p.w
    return mk('cat', tuple(out), w)


def _catpush(out, p):
    if out:
        q = out[-1]
        if p.op == 'const' and q.op == 'const':
            out[-1] = mk('const', (q.args[0] | (p.args[0] << q.w),), q.w + p.w)
            return
        # adjacent extracts of one base
        if p.op == 'ext':
            pb, pl = p.args
            if q.op == 'ext' and q.args[0] is pb and q.args[1] + q.w == pl:
                out[-1] = _ext_raw(pb, q.args[1], q.w + p.w)
                return
    out.append(p)


def _ext_raw(b, lo, w):
    if lo == 0 and w == b.w:
        return b
    return mk('ext', (b, lo), w)


def ext(t, lo, w):
    if type(t) is not T:
        return (t >> lo) & ((1 << w) - 1)
    if lo == 0 and w == t.w:
        return t
    op = t.op
    if op == 'const':
        return (t.args[0] >> lo) & ((1 << w) - 1)
    if op == 'ext':
        return ext(t.args[0], t.args[1] + lo, w)
    if op == 'cat':
        res = []
        pos = 0
        hi = lo + w
        for p in t.args:
            a = max(pos, lo)
            b = min(pos + p.w, hi)
            if a < b:
                res.append((ext(p, a - pos, b - a), b - a))
            pos += p.w
            if pos >= hi:
                break
        return cat(res)
    if op == 'ite' and type(t.args[1]) is not T and type(t.args[2]) is not T:
        return ite(t.args[0], ext(t.args[1], lo, w), ext(t.args[2], lo, w), w)
    if op == 'sext':
        b = t.args[0]
        if lo + w <= b.w:
            return ext(b, lo, w)
    return mk('ext', (t, lo), w)


def zext(t, fw, tw):
    if type(t) is not T:
        return t
    if fw == tw:
        return t
    return cat([(t, fw), (0, tw - fw)])


def sext(t, fw, tw):
    if type(t) is not T:
        if t >> (fw - 1) & 1:
            return t | (mask(tw) & ~mask(fw))
        return t
    if fw == tw:
        return t
    if fw == 1:
        return ite(t, mask(tw), 0, tw)
    if t.op == 'cat' and t.args[-1].op == 'const' and not (t.args[-1].args[0] >> (t.args[-1].w - 1)):
        return zext(t, fw, tw)
    return mk('sext', (t,), tw)


def trunc(t, tw):
    return ext(t, 0, tw)


def pieces_of(t, w):
    """list of (lo, width, value) covering t"""
    if type(t) is T and t.op == 'cat':
        r = []
        pos = 0
        for p in t.args:
            r.append((pos, p.w, p if p.op != 'const' else p.args[0]))
            pos += p.w
        return r
    return [(0, w, t)]


def _has0(t):
    if type(t) is T:
        if t.op == 'cat':
            for p in t.args:
                if p.op == 'const' and p.args[0] == 0:
                    return True
        return False
    return True


def _bits_merge(a, b, w):
    """a|b (= a^b = a+b) when at every bit position one side is constant 0; else None."""
    pa = _segs(a, w)
    pb = _segs(b, w)
    cuts = sorted(set([x[0] for x in pa] + [x[0] for x in pb]) | {w})
    out = []
    ia = ib = 0
    for i in range(len(cuts) - 1):
        lo, hi = cuts[i], cuts[i + 1]
        while pa[ia][0] + pa[ia][1] <= lo:
            ia += 1
        while pb[ib][0] + pb[ib][1] <= lo:
            ib += 1
        va = pa[ia][2]
        vb = pb[ib][2]
        if type(va) is not T and va == 0:
            out.append((ext(vb, lo - pb[ib][0], hi - lo) if vb != 0 or type(vb) is T else 0, hi - lo))
        elif type(vb) is not T and vb == 0:
            out.append((ext(va, lo - pa[ia][0], hi - lo), hi - lo))
        else:
            return None
    return cat(out)


def _segs(t, w):
    """like pieces_of but constants are split into zero / non-zero runs"""
    r = []
    for lo, n, v in pieces_of(t, w):
        if type(v) is T or v == 0:
            r.append((lo, n, v))
            continue
        pos = 0
        while pos < n:
            bit = (v >> pos) & 1
            e = pos + 1
            while e < n and ((v >> e) & 1) == bit:
                e += 1
            r.append((lo + pos, e - pos, (v >> pos) & mask(e - pos)))
            pos = e
    return r


# ---------------------------------------------------------------- linear sums

def _lin_parts(t, w):
    """-> (const, dict atom->coef)"""
    if type(t) is not T:
        return t, ()
    if t.op == 'lin':
        return t.args[0], t.args[1]
    if t.op == 'const':
        return t.args[0], ()
    return 0, (t, 1)


def _mk_lin(c, d, w):
    m = (1 << w) - 1
    c &= m
    items = [(a, k & m) for a, k in d.items() if k & m]
    if not items:
        return c
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    if len(items) > 1:
        items.sort(key=lambda x: x[0].id)
    flat = []
    for a, k in items:
        flat.append(a)
        flat.append(k)
    return mk('lin', (c, tuple(flat)), w)


def _lincomb(a, ka, b, kb, w):
    ca, da = _lin_parts(a, w)
    cb, db = _lin_parts(b, w)
    d = {}
    for i in range(0, len(da), 2):
        d[da[i]] = da[i + 1] * ka
    for i in range(0, len(db), 2):
        x = db[i]
        d[x] = d.get(x, 0) + db[i + 1] * kb
    return _mk_lin(ca * ka + cb * kb, d, w)


def add(a, b, w):
    if type(a) is not T:
        if type(b) is not T:
            return (a + b) & ((1 << w) - 1)
        if a == 0:
            return b
    elif type(b) is not T and b == 0:
        return a
    if w == 1:
        return xor(a, b, 1)
    if w > 1 and (_has0(a) and _has0(b)) and (type(a) is T and type(b) is T):
        r = _bits_merge(a, b, w)
        if r is not None:
            return r
    if RAW[0] and w == 32:
        if type(a) is not T or (type(b) is T and a.id > b.id):
            a, b = b, a
        return mk('add', (a, b), w)
    return _lincomb(a, 1, b, 1, w)


def sub(a, b, w):
    if type(a) is not T and type(b) is not T:
        return (a - b) & ((1 << w) - 1)
    if type(b) is not T and b == 0:
        return a
    return _lincomb(a, 1, b, -1, w)


def neg(a, w):
    return sub(0, a, w)


def mul(a, b, w):
    if type(a) is not T and type(b) is not T:
        return (a * b) & mask(w)
    if type(a) is not T:
        a, b = b, a
    if type(b) is not T:
        if b == 0:
            return 0
        if b == 1:
            return a
        return _lincomb(a, b, 0, 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), w)


def udiv(a, b, w):
    if type(b) is not T:
        if b == 0:
            return None
        if type(a) is not T:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return mk('udiv', (a, b), w)


def urem(a, b, w):
    if type(b) is not T:
        if b == 0:
            return None
        if type(a) is not T:
            return a % b
        if b & (b - 1) == 0:
            return zext(ext(a, 0, b.bit_length() - 1), b.bit_length() - 1, w) if b > 1 else 0
    return mk('urem', (a, b), w)


# ---------------------------------------------------------------- shifts

def shl(a, b, w):
    if type(b) is not T:
        if b >= w:
            return 0
        if type(a) is not T:
            return (a << b) & mask(w)
        if b == 0:
            return a
        return cat([(0, b), (ext(a, 0, w - b), w - b)])
    return mk('shl', (a, b), w)


def lshr(a, b, w):
    if type(b) is not T:
        if b >= w:
            return 0
        if type(a) is not T:
            return a >> b
        if b == 0:
            return a
        return cat([(ext(a, b, w - b), w - b), (0, b)])
    return mk('lshr', (a, b), w)


def ashr(a, b, w):
    if type(b) is not T:
        if b >= w:
            b = w - 1
        if type(a) is not T:
            s = a - (1 << w) if a >> (w - 1) else a
            return (s >> b) & mask(w)
        if b == 0:
            return a
        return sext(ext(a, b, w - b), w - b, w)
    return mk('ashr', (a, b), w)


def fshl(a, b, s, w):
    """concat(a:b) << s, high word"""
    if type(s) is not T:
        s %= w
        if s == 0:
            return a
        return cat([(ext(b, w - s, s), s), (ext(a, 0, w - s), w - s)])
    s = urem(s, w, w)
    sh = sub(w, s, w)
    return ite(eq(s, 0, w), a, or_(shl(a, s, w), lshr(b, sh, w), w), w)


def fshr(a, b, s, w):
    if type(s) is not T:
        s %= w
        if s == 0:
            return b
        return cat([(ext(b, s, w - s), w - s), (ext(a, 0, s), s)])
    s = urem(s, w, w)
    sh = sub(w, s, w)
    return ite(eq(s, 0, w), b, or_(shl(a, sh, w), lshr(b, s, w), w), w)


# ---------------------------------------------------------------- bitwise

def not_(a):
    """boolean negation (1 bit)"""
    if type(a) is not T:
        return a ^ 1
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 1)


def xor(a, b, w):
    ca = type(a) is not T
    cb = type(b) is not T
    if ca and cb:
        return a ^ b
    if w == 1:
        if ca:
            return not_(b) if a else b
        if cb:
            return not_(a) if b else a
        if a is b:
            return 0
        if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
            return 1
    if ca and a == 0:
        return b
    if cb and b == 0:
        return a
    if not ca and not cb and _has0(a) and _has0(b):
        r = _bits_merge(a, b, w)
        if r is not None:
            return r
    c = 0
    s = set()
    for x in (a, b):
        if type(x) is not T:
            c ^= x
        elif x.op == 'xor':
            c ^= x.args[0]
            for y in x.args[1]:
                if y in s:
                    s.discard(y)
                else:
                    s.add(y)
        elif x in s:
            s.discard(x)
        else:
            s.add(x)
    if not s:
        return c
    if len(s) == 1 and c == 0:
        return next(iter(s))
    if w == 1:
        # keep booleans in 'not' form
        r = mk('xor', (0, tuple(sorted(s, key=_id))), 1) if len(s) > 1 else next(iter(s))
        return not_(r) if c else r
    return mk('xor', (c, tuple(sorted(s, key=_id))), w)


def _id(x):
    return x.id


def _nary(op, a, b, unit, zero):
    s = {}
    for x in (a, b):
        if type(x) is not T:
            if x == zero:
                return zero
            continue
        if x.op == op:
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if x.op == 'not' and x.args[0] in s:
            return zero
    if len(s) > 1:
        dual = 'and' if op == 'or' else 'or'
        n = 0
        for x in s:
            if x.op == dual:
                n += 1
        if n and n <= 32:
            s = _absorb(s, op, dual)
            if s is None:
                return zero
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return mk(op, tuple(sorted(s, key=_id)), 1)


def _absorb(s, op, dual):
    """x|(x&y) = x;  x|(!x&y) = x|y;  (x&y)|(x&!y) = x;  and the duals.  None: all of it is constant"""
    lits = {}
    sets = []
    todo = list(s)
    for rnd in range(40):
        for x in todo:
            if x.op == dual:
                sets.append(frozenset(x.args))
            elif x.op == op:
                todo.extend(x.args)
            else:
                if not_(x) in lits:
                    return None
                lits[x] = 1
        todo = []
        new = []
        seen = set()
        for d in sets:
            if d in seen:
                continue
            seen.add(d)
            keep = True
            cut = None
            for y in d:
                if y in lits:
                    keep = False
                    break
                if not_(y) in lits:
                    cut = (cut or set())
                    cut.add(y)
            if not keep:
                continue
            if cut:
                d = d - cut
                if not d:
                    return None
                if len(d) == 1:
                    todo.append(next(iter(d)))
                    continue
                if d in seen:
                    continue
                seen.add(d)
            new.append(d)
        sets = new
        if todo:
            continue
        # between the sets
        sets.sort(key=len)
        new = []
        for d in sets:
            for k in new:
                if k <= d:
                    break
            else:
                new.append(d)
        sets = new
        hit = None
        for i, d in enumerate(sets):
            for j in range(i + 1, len(sets)):
                k = sets[j]
                if len(d) > len(k):
                    continue
                r = d - k
                if len(r) != 1:
                    continue
                y = not_(next(iter(r)))
                if y in k:
                    # d = X & !y, k = X & Z & y
                    hit = (j, k - {y})
                    if len(d) == len(k):
                        hit = (j, k - {y}, i)
                    break
            if hit:
                break
        if not hit:
            break
        sets = [x for n, x in enumerate(sets) if n not in hit[:1] + hit[2:]]
        if len(hit[1]) == 1:
            todo.append(next(iter(hit[1])))
        else:
            sets.append(hit[1])
    out = dict(lits)
    for x in todo:
        out[x] = 1
    for d in sets:
        out[mk(dual, tuple(sorted(d, key=_id)), 1)] = 1
    return out


def and_(a, b, w):
    if type(a) is not T and type(b) is not T:
        return a & b
    if w == 1:
        if a is b:
            return a
        # absorption of facts: x & (not x | y) etc. is left to the solver
        return _nary('and', a, b, 1, 0)
    if type(a) is not T:
        a, b = b, a
    if type(b) is not T:
        m = mask(w)
        if b == 0:
            return 0
        if b == m:
            return a
        # mask with a run structure -> pieces
        out = []
        for lo, n, v in _segs(b, w):
            out.append((ext(a, lo, n) if v else 0, n))
        if len(out) <= 8:
            return cat(out)
        return mk('band', (a, b), w)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('band', (a, b), w)


def or_(a, b, w):
    if type(a) is not T and type(b) is not T:
        return a | b
    if w == 1:
        if a is b:
            return a
        return _nary('or', a, b, 0, 1)
    if type(a) is not T:
        if a == 0:
            return b
        if a == mask(w):
            return a
    elif type(b) is not T:
        if b == 0:
            return a
        if b == mask(w):
            return b
    if _has0(a) and _has0(b):
        r = _bits_merge(a, b, w)
        if r is not None:
            return r
    if type(a) is T and a is b:
        return a
    if type(a) is not T or (type(b) is T and a.id > b.id):
        a, b = b, a
    return mk('bor', (a, b), w)


# ---------------------------------------------------------------- comparisons

def _ite_consts(t, depth=0):
    """all leaves of an ite tree constant?"""
    while True:
        if type(t) is not T:
            return True
        if t.op != 'ite' or depth > 40:
            return False
        if not _ite_consts(t.args[1], depth + 1):
            return False
        t = t.args[2]
        depth += 1


def eq(a, b, w):
    if type(a) is not T and type(b) is not T:
        return 1 if a == b else 0
    if a is b:
        return 1
    if w == 1:
        return not_(xor(a, b, 1))
    if type(a) is not T:
        a, b = b, a
    # b may be int now
    if type(b) is not T:
        op = a.op
        if op == 'ite' and _ite_consts(a):
            return ite(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w), 1)
        if op == 'cat':
            r = 1
            pos = 0
            for p in a.args:
                pv = (b >> pos) & mask(p.w)
                if p.op == 'const':
                    if p.args[0] != pv:
                        return 0
                pos += p.w
            pos = 0
            for p in a.args:
                if p.op != 'const':
                    r = and_(r, eq(p, (b >> pos) & mask(p.w), p.w), 1)
                pos += p.w
            return r
        if op == 'lin':
            return _eq_lin(a.args[0] - b, a.args[1], w)
        if op == 'xor' and a.args[0]:
            return eq(mk('xor', (0, a.args[1]), w) if len(a.args[1]) > 1 else a.args[1][0], a.args[0] ^ b, w)
        return mk('eq', (a, b), 1)
    if a.op == 'cat' and b.op == 'cat':
        if [p.w for p in a.args] == [p.w for p in b.args]:
            r = 1
            for p, q in zip(a.args, b.args):
                r = and_(r, eq(unc(p), unc(q), p.w), 1)
            return r
        ta, tb = a.args[-1], b.args[-1]
        if ta.op == 'const' and tb.op == 'const' and ta.args[0] == 0 and tb.args[0] == 0:
            n = min(ta.w, tb.w)
            return eq(ext(a, 0, w - n), ext(b, 0, w - n), w - n)
    d = _lincomb(a, 1, b, -1, w)
    if type(d) is not T:
        return 1 if d == 0 else 0
    if d.op == 'lin':
        its = d.args[1]
        if len(its) > 4 or w < 64:
            pass
        return _eq_lin(d.args[0], its, w)
    return mk('eq', (d, 0), 1)


def _eq_lin(c, its, w):
    """c + sum == 0"""
    m = mask(w)
    c &= m
    # common power of two factor
    if len(its) == 2 and its[1] in (1, m):
        if its[1] == 1:
            return mk('eq', (its[0], (-c) & m), 1) if its[0].op not in ('ite', 'cat', 'xor') else eq_base(its[0], (-c) & m, w)
        return mk('eq', (its[0], c), 1) if its[0].op not in ('ite', 'cat', 'xor') else eq_base(its[0], c, w)
    # canonical sign: first coefficient < 2^(w-1)
    if its[1] >> (w - 1):
        its = tuple(x if type(x) is T else (-x) & m for x in its)
        c = (-c) & m
    # gcd power of two: c must be divisible
    g = min(((k & -k).bit_length() - 1) for k in its[1::2])
    if g and c & mask(g):
        return 0
    return mk('eq', (mk('lin', (0, its), w) if not (len(its) == 2 and its[1] == 1) else its[0], (-c) & m), 1)


def eq_base(a, b, w):
    return eq(a, b, w)


def ne(a, b, w):
    return not_(eq(a, b, w))


def umax_of(t, w):
    """cheap upper bound of an unsigned value"""
    if type(t) is not T:
        return t
    if t.op == 'cat':
        p = t.args[-1]
        if p.op == 'const':
            lo = t.w - p.w
            return (p.args[0] << lo) | mask(lo)
    if t.op == 'ite':
        return max(umax_of(t.args[1], w), umax_of(t.args[2], w))
    return mask(w)


def ult(a, b, w):
    ca = type(a) is not T
    cb = type(b) is not T
    if ca and cb:
        return 1 if a < b else 0
    if a is b:
        return 0
    if cb:
        if b == 0:
            return 0
        if b == 1:
            return eq(a, 0, w)
        if umax_of(a, w) < b:
            return 1
        if a.op == 'ite' and _ite_consts(a):
            return ite(a.args[0], ult(a.args[1], b, w), ult(a.args[2], b, w), 1)
        if a.op == 'cat' and a.args[-1].op == 'const' and a.args[-1].args[0] == 0:
            n = a.w - a.args[-1].w
            if b >> n:
                return 1
            return ult(ext(a, 0, n), b, n)
    elif ca:
        if a == mask(w):
            return 0
        if umax_of(b, w) <= a:
            return 0
        if a == 0:
            return ne(b, 0, w)
        if b.op == 'ite' and _ite_consts(b):
            return ite(b.args[0], ult(a, b.args[1], w), ult(a, b.args[2], w), 1)
        if b.op == 'cat' and b.args[-1].op == 'const' and b.args[-1].args[0] == 0:
            n = b.w - b.args[-1].w
            if a >> n:
                return 0
            return ult(a, ext(b, 0, n), n)
    return mk('ult', (a, b), 1)


def ule(a, b, w):
    return not_(ult(b, a, w))


def _sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def slt(a, b, w):
    if type(a) is not T and type(b) is not T:
        return 1 if _sgn(a, w) < _sgn(b, w) else 0
    if a is b:
        return 0
    return mk('slt', (a, b), 1)


def sle(a, b, w):
    return not_(slt(b, a, w))


def umin(a, b, w):
    return ite(ult(a, b, w), a, b, w)


def umax(a, b, w):
    return ite(ult(a, b, w), b, a, w)


# ---------------------------------------------------------------- ite, sel, uf

# hooks: op name -> function(c, a, b, w) or None, for merging structured terms
ITE_HOOKS = []
# name of a chaining-value function -> its eight values at block 0 (the definition of name(0, i))
INIT = {}
TWIN = {}
# variable (without the suffix of an instance) -> upper bound assumed wherever it occurs
BOUNDS = {}
# names of uninterpreted functions whose applications are merged argument-wise
PUSH = set()


def _ite_uf(c, a, b, w):
    ua = type(a) is T and a.op == 'uf' and a.args[0] in PUSH
    ub = type(b) is T and b.op == 'uf' and b.args[0] in PUSH
    if ua and ub:
        if a.args[0] != b.args[0]:
            return None
    elif ua:
        b = _as_init(b, a)
        if b is None:
            return None
    elif ub:
        a = _as_init(a, b)
        if a is None:
            return None
    else:
        return None
    # the index (last argument) must agree
    if a.args[1][-1] != b.args[1][-1]:
        return None
    return uf(a.args[0], tuple((ite(c, x, y, vw), vw) for (x, vw), (y, _) in zip(a.args[1], b.args[1])), w)


def _as_init(v, f):
    z = INIT.get(f.args[0])
    if z is None:
        return None
    i = f.args[1][1][0]
    z = z[i]
    if v is z or (type(v) is not T and type(z) is not T and v == z):
        return uf(f.args[0], ((0, 64), (i, 8)), f.w)
    return None


def tz(t, w):
    """a number of low bits known to be zero"""
    if type(t) is not T:
        return w if not t else (t & -t).bit_length() - 1
    if t.op == 'lin':
        c, its = t.args
        r = tz(c, w)
        for k in range(0, len(its), 2):
            r = min(r, tz(its[k], w) + tz(its[k + 1], w))
        return min(r, w)
    if t.op == 'cat':
        n = 0
        for p in t.args:
            x = unc(p)
            z = tz(x, p.w)
            n += z
            if z < p.w:
                break
        return n
    if t.op == 'ite':
        return min(tz(t.args[1], w), tz(t.args[2], w))
    return 0


def ite(c, a, b, w):
    if type(c) is not T:
        return a if c else b
    if a is b or (type(a) is not T and type(b) is not T and a == b):
        return a
    if c.op == 'not':
        c = c.args[0]
        a, b = b, a
    if c.op == 'ult' and w >= 16:
        # min(2^k, A) where 2^k divides A
        if type(c.args[0]) is not T and b is c.args[1] and type(a) is not T and a == c.args[0] and a & (a - 1) == 0 and a and tz(b, w) >= a.bit_length() - 1:
            return ite(eq(b, 0, w), 0, a, w)
        if type(c.args[1]) is not T and a is c.args[0] and type(b) is not T and b == c.args[1] and b & (b - 1) == 0 and b and tz(a, w) >= b.bit_length() - 1:
            return ite(eq(a, 0, w), 0, b, w)
    if w == 1:
        if type(a) is not T:
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if type(b) is not T:
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
        if a is c:
            return or_(c, b, 1)
        if b is c:
            return and_(c, a, 1)
    if type(a) is T and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
        return ite(c, a, b, w)
    if type(b) is T and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
        return ite(c, a, b, w)
    if PUSH and w == 32:
        r = _ite_uf(c, a, b, w)
        if r is not None:
            return r
    # ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
    if type(a) is T and a.op == 'ite' and (a.args[2] is b or (type(b) is not T and type(a.args[2]) is not T and a.args[2] == b)):
        return ite(and_(c, a.args[0], 1), a.args[1], b, w)
    if type(a) is T and a.op == 'ite' and (a.args[1] is b or (type(b) is not T and type(a.args[1]) is not T and a.args[1] == b)):
        return ite(and_(c, not_(a.args[0]), 1), a.args[2], b, w)
    if type(b) is T and b.op == 'ite' and (b.args[1] is a or (type(a) is not T and type(b.args[1]) is not T and b.args[1] == a)):
        return ite(or_(c, b.args[0], 1), a, b.args[2], w)
    if type(b) is T and b.op == 'ite' and (b.args[2] is a or (type(a) is not T and type(b.args[2]) is not T and b.args[2] == a)):
        return ite(and_(not_(c), b.args[0], 1), b.args[1], a, w)
    return mk('ite', (c, a, b), w)


def sel(arr, idx):
    """byte idx of the (arbitrary, unbounded) byte array named arr"""
    return mk('sel', (arr, idx), 8)


def uf(name, args, w):
    """uninterpreted function application; args: tuple of (value, width)"""
    return mk('uf', (name, args), w)


def conj(l):
    r = 1
    for x in l:
        r = and_(r, x, 1)
    return r


def disj(l):
    r = 0
    for x in l:
        r = or_(r, x, 1)
    return r


def implies(a, b):
    return or_(not_(a), b, 1)


# ---------------------------------------------------------------- traversal

def children(t):
    for a in t.args:
        if type(a) is T:
            yield a
        elif type(a) is tuple:
            for b in a:
                if type(b) is T:
                    yield b
                elif type(b) is tuple:
                    for c in b:
                        if type(c) is T:
                            yield c


def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if type(r) is not T or r in seen:
            continue
        st = [(r, children(r))]
        seen.add(r)
        while st:
            t, it = st[-1]
            for c in it:
                if c not in seen:
                    seen.add(c)
                    st.append((c, children(c)))
                    break
            else:
                out.append(t)
                st.pop()
    return out


_vars_memo = {}


def leaves(t):
    """frozenset of 'var' / 'sel' / 'uf' leaf keys below t (memoised)"""
    if type(t) is not T:
        return frozenset()
    r = _vars_memo.get(t)
    if r is not None:
        return r
    for x in topo([t]):
        if x in _vars_memo:
            continue
        s = set()
        if x.op == 'var':
            s.add(x.args[0])
        elif x.op == 'sel':
            s.add('@' + x.args[0])
        elif x.op == 'uf':
            s.add('$' + x.args[0])
        for c in children(x):
            s |= _vars_memo[c]
        _vars_memo[x] = frozenset(s)
    return _vars_memo[t]


def subst(t, m, memo=None):
    """replace terms by the dict m (T -> value), rebuilding with the smart constructors"""
    if type(t) is not T:
        return t
    if memo is None:
        memo = {}
    for x in topo_stop([t], m, memo):
        memo[x] = rebuild(x, lambda c: memo[c] if type(c) is T else c) if x not in m else m[x]
    return memo[t]


def topo_stop(roots, m, memo):
    seen = set()
    out = []
    for r in roots:
        if type(r) is not T or r in seen or r in memo:
            continue
        st = [(r, iter(()) if r in m else children(r))]
        seen.add(r)
        while st:
            t, it = st[-1]
            for c in it:
                if c not in seen and c not in memo:
                    seen.add(c)
                    st.append((c, iter(()) if c in m else children(c)))
                    break
            else:
                out.append(t)
                st.pop()
    return out


def rebuild(x, f):
    op = x.op
    a = x.args
    w = x.w
    if op in ('var', 'const'):
        return unc(x)
    if op == 'lin':
        r = a[0]
        its = a[1]
        for i in range(0, len(its), 2):
            r = add(r, mul(f(its[i]), its[i + 1], w), w)
        return r
    if op == 'add':
        return add(f(a[0]), f(a[1]), w)
    if op == 'xor':
        r = a[0]
        for y in a[1]:
            r = xor(r, f(y), w)
        return r
    if op == 'cat':
        return cat([(f(p), p.w) for p in a])
    if op == 'ext':
        return ext(f(a[0]), a[1], w)
    if op == 'sext':
        return sext(f(a[0]), a[0].w, w)
    if op == 'ite':
        return ite(f(a[0]), f(a[1]), f(a[2]), w)
    if op == 'not':
        return not_(f(a[0]))
    if op == 'and':
        return conj([f(y) for y in a])
    if op == 'or':
        return disj([f(y) for y in a])
    if op in ('eq', 'ult', 'slt'):
        cw = a[0].w if type(a[0]) is T else a[1].w
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](f(a[0]), f(a[1]), cw)
    if op == 'sel':
        return sel(a[0], f(a[1]))
    if op == 'uf':
        return uf_rebuild(a[0], tuple((f(v), vw) for v, vw in a[1]), w)
    fn = {'band': and_, 'bor': or_, 'mul': mul, 'udiv': udiv, 'urem': urem,
          'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
    return fn(f(a[0]), f(a[1]), w)


def uf_rebuild(name, args, w):
    return uf(name, args, w)


# ---------------------------------------------------------------- evaluation

def evaluate(roots, env, memo=None):
    """env: object with var(name,w), sel(arr,i), uf(name,args,w) -> int"""
    if memo is None:
        memo = {}

    def val(c):
        return memo[c] if type(c) is T else c
    for x in topo_memo(roots, memo):
        op = x.op
        a = x.args
        w = x.w
        m = (1 << w) - 1
        if op == 'var':
            r = env.var(a[0], w) & m
        elif op == 'const':
            r = a[0]
        elif op == 'lin':
            r = a[0]
            its = a[1]
            for i in range(0, len(its), 2):
                r += memo[its[i]] * its[i + 1]
            r &= m
        elif op == 'add':
            r = (val(a[0]) + val(a[1])) & m
        elif op == 'xor':
            r = a[0]
            for y in a[1]:
                r ^= memo[y]
        elif op == 'cat':
            r = 0
            pos = 0
            for p in a:
                r |= memo[p] << pos
                pos += p.w
        elif op == 'ext':
            r = (memo[a[0]] >> a[1]) & m
        elif op == 'ite':
            r = val(a[1]) if memo[a[0]] else val(a[2])
        elif op == 'not':
            r = memo[a[0]] ^ 1
        elif op == 'and':
            r = 1
            for y in a:
                if not memo[y]:
                    r = 0
                    break
        elif op == 'or':
            r = 0
            for y in a:
                if memo[y]:
                    r = 1
                    break
        elif op == 'eq':
            r = 1 if val(a[0]) == val(a[1]) else 0
        elif op == 'ult':
            r = 1 if val(a[0]) < val(a[1]) else 0
        elif op == 'slt':
            cw = a[0].w if type(a[0]) is T else a[1].w
            r = 1 if _sgn(val(a[0]), cw) < _sgn(val(a[1]), cw) else 0
        elif op == 'band':
            r = val(a[0]) & val(a[1])
        elif op == 'bor':
            r = val(a[0]) | val(a[1])
        elif op == 'mul':
            r = (val(a[0]) * val(a[1])) & m
        elif op == 'udiv':
            d = val(a[1])
            r = val(a[0]) // d if d else m
        elif op == 'urem':
            d = val(a[1])
            r = val(a[0]) % d if d else val(a[0])
        elif op == 'shl':
            s = val(a[1])
            r = (val(a[0]) << s) & m if s < w else 0
        elif op == 'lshr':
            s = val(a[1])
            r = val(a[0]) >> s if s < w else 0
        elif op == 'ashr':
            s = min(val(a[1]), w - 1)
            r = (_sgn(val(a[0]), w) >> s) & m
        elif op == 'sext':
            r = _sgn(memo[a[0]], a[0].w) & m
        elif op == 'sel':
            r = env.sel(a[0], val(a[1])) & 0xff
        elif op == 'uf':
            r = env.uf(a[0], tuple(val(v) for v, _ in a[1]), w) & m
        else:
            raise Exception('eval ' + op)
        memo[x] = r
    return [val(r) for r in roots]


def topo_memo(roots, memo):
    seen = set()
    out = []
    for r in roots:
        if type(r) is not T or r in seen or r in memo:
            continue
        st = [(r, children(r))]
        seen.add(r)
        while st:
            t, it = st[-1]
            for c in it:
                if c not in seen and c not in memo:
                    seen.add(c)
                    st.append((c, children(c)))
                    break
            else:
                out.append(t)
                st.pop()
    return out
