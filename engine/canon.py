"""Closed forms for the reference representation.

The state that one update of n bytes leaves behind comes out of the executor as a large case
distinction.  Its scalar fields are compared, on a handful of concrete lengths, with the few functions of
n that a block-buffered hash uses (n, the number of whole blocks, the fill of the buffer).  The closed
form found is only a candidate: the induction over the calls has to close with it.
"""
import terms as tm
from terms import T, add, sub, mul, eq, ule, ult, ite, ext
import interp as I
import inv

SAMPLES = (0, 1, 2, 3, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 257, 1000, 1024, 1025)

_k = [0]


class Case(object):
    """conds: on n and the new variables; at(n): values of the new variables, or None if n is no such case"""

    def __init__(self, conds, at, nums, blocks, bufs):
        self.conds = conds
        self.at = at
        self.nums = nums          # 64-bit terms a field may hold
        self.blocks = blocks      # block counts a chaining value may stand for
        self.bufs = bufs          # [(live(j), index(j))]: byte j of a buffer holds stream byte index(j) if live


def block_cases(n, koff, stream, lazy, size=64, single=False):
    """cases for a stream that keeps up to `size` bytes in a buffer; lazy: a full buffer is kept"""
    _k[0] += 1
    q = tm.var('K!q%d' % _k[0], 64)
    r = tm.var('K!r%d' % _k[0], 64)
    tm.BOUNDS[q.args[0]] = 1 << 51
    tm.BOUNDS[r.args[0]] = size
    N = add(n, koff, 64)
    out = []
    if lazy and not koff and not single:
        out.append(Case([eq(n, 0, 64)], lambda x: {} if x == 0 else None, [0, n], [0], [(lambda j: 0, lambda j: 0)]))
    conds = [eq(N, add(mul(q, size, 64), r, 64), 64), ule(q, 1 << 51, 64)]
    if lazy:
        # only the empty stream has an empty buffer
        conds += [tm.or_(ule(1, r, 64), eq(q, 0, 64), 1) if single and not koff else ule(1, r, 64), ule(r, size, 64)]
    else:
        conds += [ult(r, size, 64)]

    def at(x):
        x += koff
        if lazy:
            if x == 0:
                return {q: 0, r: 0} if single else None
            return {q: (x - 1) // size, r: (x - 1) % size + 1}
        return {q: x // size, r: x % size}
    nums = [r, N, n, q, sub(size, r, 64), mul(q, size, 64), 0]
    out.append(Case(conds, at, nums, [q, mul(q, size // 64, 64)], [(lambda j: ult(j, r, 64), lambda j: add(mul(q, size, 64), j, 64))]))
    return out


def covered(e, n, hi, cases, koff, lazy, size=64, single=False):
    """every n <= hi is one of the cases (the witnesses are written out, so the solver only checks them)"""
    N = add(n, koff, 64)
    alts = []
    for c in cases:
        names = sorted(set(x for cd in c.conds for x in tm.leaves(cd) if x.startswith('K!')))
        m = {}
        for x in names:
            v = tm.var(x, 64)
            b = size.bit_length() - 1
            t = sub(N, 1, 64) if lazy else N
            if x.startswith('K!q'):
                m[v] = ite(eq(N, 0, 64), 0, tm.lshr(t, b, 64), 64) if single else tm.lshr(t, b, 64)
            else:
                m[v] = add(tm.and_(t, size - 1, 64), 1 if lazy else 0, 64)
                if single:
                    m[v] = ite(eq(N, 0, 64), 0, m[v], 64)
        alts.append(tm.conj([tm.subst(cd, m) for cd in c.conds]))
    r, _ = e.smt.check([ule(n, hi, 64), tm.not_(tm.disj(alts))])
    return r == 'unsat'


def dependent(x, names):
    l = inv.leaves_of(x[0]) if type(x) is tuple else ()
    return any(v in names or v.startswith(('K!', 'any!', 'havoc!')) for v in l)


def fit(sc, ref, n, cases, stream, samples=SAMPLES, tag=None):
    """-> a Ref in closed form, or None"""
    e = sc.e
    # concrete views of the object
    views = []
    for val in samples:
        for conds, data in ref.items:
            r, m = e.smt.check(list(ref.base) + conds + [eq(n, val, 64)], True)
            if r == 'sat':
                views.append((val, data, m))
                break
        else:
            return None
    out = inv.Ref(sc, ref.ptr, ref.n, ref.tag)
    out.base = ref.base
    names = set([n.args[0]])
    for case in cases:
        vs = [(val, d, m, case.at(val)) for val, d, m in views]
        vs = [v for v in vs if v[3] is not None]
        if not vs:
            return None
        data = fitcase(e, ref, vs, case, stream, names, n)
        if type(data) is not list:
            sc.e.log and sc.e.log('no closed form for byte %s' % data)
            return None
        out.items.append((list(case.conds), data))
    return out


def evalc(t, n, v):
    """value of a candidate term for view v"""
    if type(t) is not T:
        return t
    m = dict((k, x) for k, x in v[3].items())
    m[n] = v[0]
    r = tm.subst(t, m)
    assert type(r) is not T
    return r


def fitcase(e, ref, vs, case, stream, names, n):
    size = len(vs[0][1])
    data = [None] * size
    i = 0
    bufoff = None
    while i < size:
        xs = [v[1][i] for v in vs]
        x = xs[0]
        if all(y is None for y in xs):
            i += 1
            continue
        if any(y is None for y in xs):
            return i
        if all(y is x or (type(y) is type(x) and y == x) for y in xs) and not dependent(x, names):
            data[i] = x
            i += 1
            continue
        # words
        spans = [e.run_at(v[1], i) for v in vs]
        ln = max([s[1] for s in spans if s is not None and s[0] == i] or [1])
        if i + ln > size:
            return i
        if ln > 1:
            ws = [e.word(v[1], i, ln) for v in vs]
            if any(w is None or w is I.UNDEF or type(w) not in (int, T) for w in ws):
                return i
            r = fitword(ws, vs, case, stream, n, 8 * ln)
            if r is None:
                return i
            data[i:i + ln] = [(r, k) for k in range(ln)] if type(r) is T else list(r.to_bytes(ln, 'little'))
            i += ln
            continue
        bs = [I.entry_byte(y) for y in xs]
        if any(b is None for b in bs):
            return i
        r, bufoff = fitbyte(bs, vs, case, stream, n, i, bufoff, ref.tag)
        if r is None:
            return i
        data[i] = r if type(r) is not T else (r, 0)
        i += 1
    return data


def fitword(ws, vs, case, stream, n, w):
    lv = [inv.leaf(x, v[2]) for x, v in zip(ws, vs)]
    if any(type(x) is T and x.op == 'uf' for x in lv):
        f = [x for x in lv if type(x) is T and x.op == 'uf'][0]
        if f.args[0] not in tm.INIT:
            return None
        idx = f.args[1][1][0]
        z = tm.INIT[f.args[0]][idx]
        got = []
        for x, v in zip(lv, vs):
            if type(x) is T and x.op == 'uf' and x.args[0] == f.args[0] and x.args[1][1][0] == idx:
                got.append(v[2].val(x.args[1][0][0]))
            elif x is z or (type(x) is not T and x == z):
                got.append(0)
            else:
                return None
        for c in case.blocks:
            if all(evalc(c, n, v) == g for v, g in zip(vs, got)):
                return tm.uf(f.args[0], ((c, 64), (idx, 8)), 32) if type(c) is T or c else z
        return None
    # the initial words
    if all(x is lv[0] or (type(x) is not T and x == lv[0]) for x in lv) and not (type(lv[0]) is T and n.args[0] in tm.leaves(lv[0])):
        return lv[0]
    got = [v[2].val(x) for x, v in zip(ws, vs)]
    for c in case.nums:
        if all(evalc(c, n, v) & tm.mask(w) == g for v, g in zip(vs, got)):
            return ext(c, 0, w) if w < 64 else c
    return None


def fitbyte(bs, vs, case, stream, n, i, bufoff, tag):
    lv = [inv.leaf(x, v[2]) for x, v in zip(bs, vs)]
    # a number
    if not any(type(x) is T and x.op == 'sel' for x in lv):
        if all(type(x) is not T or not (tm.leaves(x) & set(y for y in tm.leaves(x) if y[0] in '@$')) for x in lv):
            got = [v[2].val(x) for x, v in zip(bs, vs)]
            if len(vs) == 1:
                return got[0], bufoff
            for c in case.nums:
                if all(evalc(c, n, v) & 255 == g for v, g in zip(vs, got)):
                    return ext(c, 0, 8), bufoff
            if all(type(x) is not T for x in lv) and len(set(lv)) == 1:
                return lv[0], bufoff
        if len(vs) == 1 and type(lv[0]) is not T:
            return lv[0], bufoff
        if any(type(x) is T and x.args and type(x.args[0]) is str and x.args[0].startswith('any') for x in lv):
            return tm.var('any!%s!%d' % (tag, i), 8), bufoff
        return None, bufoff
    for live, index in case.bufs:
        offs = [bufoff] if bufoff is not None else []
        if not offs:
            for x, v in zip(lv, vs):
                if type(x) is T and x.op == 'sel':
                    k = place(stream, x, v[2])
                    if k is None:
                        return None, bufoff
                    j = k - evalc(index(0), n, v)
                    if 0 <= j < 1 << 16 and i - j not in offs:
                        offs.append(i - j)
        for off in offs:
            j = i - off
            if j < 0:
                continue
            ok = True
            nlive = 0
            for x, v in zip(lv, vs):
                if not evalc(live(j), n, v):
                    continue
                nlive += 1
                if type(x) is not T or x.op != 'sel' or place(stream, x, v[2]) != evalc(index(j), n, v):
                    ok = False
                    break
            if ok and nlive:
                return ite(live(j), stream.byte(index(j)), tm.var('any!%s!%d' % (tag, i), 8), 8), off
    return None, bufoff


def place(stream, x, env):
    """the stream index of a message byte"""
    b = stream.byte(tm.var('any!index', 64))
    if b.op != 'sel' or b.args[0] != x.args[0]:
        return None
    off = sub(b.args[1], tm.var('any!index', 64), 64)
    if type(off) is T:
        return None
    return (env.val(x.args[1]) - off) & tm.mask(64)
