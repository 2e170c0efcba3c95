"""Parts about Hash values (P17)."""
import terms as tm
from terms import T, eq, ne, ule, ult, not_, ext, sel, or_, and_, ite, add, lshr
import interp as I
import fmtlib
from chk import Trace, Undecided


class Any(object):
    """Hash objects of any length with any content: hashes of the requested lengths whose bytes are then replaced through the pointer as_bytes() gives"""

    def __init__(self, part, name, k=1, same=False):
        self.part = part
        sc = self.sc = part.scenario(name, induct=False)
        self.e = sc.e
        self.tr = Trace(sc)
        self.h = []
        self.hl = []
        self.p = sc.obj('p', 'Params')
        self.s = sc.obj('s', 'State')
        m = sc.arr('m', 3)
        self.tr.lens['m'] = 3
        self.base = []
        for i in range(k):
            h = sc.obj('h%d' % i, 'Hash')
            hl = tm.var('hl%d' % i, 64)
            if not (same and i):
                sc.assume(ule(1, hl, 64), ule(hl, 32, 64))
                sc.min.append(hl)
            else:
                hl = self.hl[0]
            x = sc.arr('x%d' % i, 32)
            self.tr.lens['x%d' % i] = 32
            self.do('h_p_new', self.p)
            self.do('h_p_hash_length', self.p, hl)
            self.do('h_p_to_state', self.p, self.s)
            self.do('h_s_update', self.s, m, i)
            self.do('h_s_finalize', self.s, h)
            self.tr.steps.append(('!poke', dict(hash=h, src=x)))
            for st, vals in sc.sts:
                st2, ln, q = sc.hash_of(st, h)
                part.prove_quiet('as_bytes().len() is the requested length', sc, st2, eq(ln, hl, 64), [self.retlen(h, hl)])
                o = st.wobj(q.obj)
                if type(q.off) is not int:
                    raise Undecided('as_bytes() at a symbolic offset')
                for j in range(32):
                    o.data[q.off + j] = (sel('x%d' % i, j), 0)
            self.h.append(h)
            self.hl.append(hl)

    def retlen(self, h, hl):
        t = self.tr.copy()
        t.steps = [s for s in t.steps if s[0] != '!poke']
        n = t.call('h_h_len', h)
        return t.want(kind='ret', step=n, value=hl)

    def do(self, fn, *args):
        self.tr.call(fn, *args)
        self.sc.call(fn, *args)
        if not self.part.panics(self.sc, fn, self.tr.copy()):
            raise Undecided('possible panic')
        if not self.sc.sts:
            raise Undecided('no state left')

    def x(self, i, j):
        return sel('x%d' % i, j)

    def run(self, st, fn, args, traces):
        r = self.e.run('@' + fn, st.copy(), args)
        if not self.part.panics(self.sc, fn, traces):
            raise Undecided('possible panic')
        if not r:
            raise Undecided('%s does not return' % fn)
        return r


def accessors(part):
    """as_bytes, as_ref, clone"""
    a = Any(part, 'accessors')
    sc = a.sc
    h, hl = a.h[0], a.hl[0]
    g = sc.obj('g', 'Hash')
    tr = a.tr.copy()
    n = tr.call('h_h_aslen', h)
    tr.want(kind='ret', step=n, value=hl)
    tb = a.tr.copy().want(kind='hashbytes', hash=h, src=['x0', 0, hl])
    tc = a.tr.copy()
    tc.call('h_h_clone', h, g)
    tc.want(kind='hashbytes', hash=g, src=['x0', 0, hl])
    tq = a.tr.copy()
    n = tq.call('h_h_asptr', h)
    tq.want(kind='bytesat', step=n, src=['x0', 0, hl])
    for st, _ in sc.sts:
        for s1, p in a.run(st, 'h_h_asptr', [h], [tq]):
            within(part, sc, s1, p, hl, lambda j: a.x(0, j), 'as_ref() bytes', [tq])
        for s1, ln in a.run(st, 'h_h_aslen', [h], [tr]):
            part.prove_quiet('as_ref().len()', sc, s1, eq(ln, hl, 64), [tr])
        for s1, p in a.run(st, 'h_h_ptr', [h], [tb]):
            within(part, sc, s1, p, hl, lambda j: a.x(0, j), 'as_bytes()', [tb])
        for s1, _ in a.run(st, 'h_h_clone', [h, g], [tc]):
            s2, ln, p = sc.hash_of(s1, g)
            part.prove_quiet('length of a clone', sc, s2, eq(ln, hl, 64), [tc])
            within(part, sc, s2, p, hl, lambda j: a.x(0, j), 'clone', [tc])
    part.bounds.append('every length 1..32 and every content of a hash')
    part.ok('as_bytes, as_ref and clone show exactly the bytes of the hash')


def within(part, sc, st, p, hl, want, what, traces):
    bb = sc.bytes(st, p, 32)
    conds = []
    for j in range(32):
        c = eq(bb[j], want(j), 8) if bb[j] is not None else 0
        conds.append(or_(ule(hl, j, 64), c, 1))
    part.prove_quiet(what, sc, st, tm.conj(conds), traces)


def hexdigit(v):
    """v: 4-bit value in a byte"""
    return ite(ult(v, 10, 8), add(v, 48, 8), add(v, 87, 8), 8)


class Digits(object):
    """got == want for terms over a single byte, whatever that byte is (each shape is decided once)"""

    def __init__(self, sc):
        self.sc = sc
        self.known = {}

    def eq(self, got, want, x):
        c = eq(got, want, 8)
        if type(c) is not T:
            return c
        v = tm.var('anybyte', 8)
        k = tm.subst(c, {x: v})
        if type(k) is not T:
            return k
        if tm.leaves(k) != frozenset(['anybyte']):
            return c
        if k not in self.known:
            self.known[k] = self.sc.e.smt.check([not_(k)])[0] == 'unsat'
        return 1 if self.known[k] else c


def hexa(part):
    a = Any(part, 'hex')
    sc = a.sc
    h, hl = a.h[0], a.hl[0]
    buf = sc.obj('buf', (80, 1))
    tr = a.tr.copy()
    n = tr.call('h_h_hex', h, buf)
    tr.want(kind='text', step=n, at=buf, hexof=h)
    tr.want(kind='ret', step=n, value=tm.shl(hl, 1, 64))
    dig = Digits(sc)
    fmtlib.Model(sc.e, keep=False)
    for st, _ in sc.sts:
        for s1, ln in a.run(st, 'h_h_hex', [h, buf], [tr]):
            part.prove_quiet('length of the text', sc, s1, eq(ln, tm.shl(hl, 1, 64), 64), [tr])
            bb = sc.bytes(s1, buf, 64)
            for k in range(1, 33):
                memo = {}
                conds = []
                for j in range(2 * k):
                    x = a.x(0, j // 2)
                    d = hexdigit(lshr(x, 4, 8) if j % 2 == 0 else and_(x, 15, 8))
                    conds.append(dig.eq(tm.subst(bb[j], {hl: k}, memo), d, x) if bb[j] is not None else 0)
                c = tm.conj(conds)
                if type(c) is T or not c:
                    part.prove_quiet('text', sc, s1, or_(ne(hl, k, 64), c, 1), [tr])
    part.bounds.append('every length 1..32 and every content of a hash')
    part.ok('to_hex: two lowercase digits a byte, in order')


def compare(part, slc=False):
    """== and != on every two hashes, or a hash and a slice"""
    a = Any(part, 'equality', 1 if slc else 2)
    sc = a.sc
    h = a.h[0]
    if slc:
        n = sc.length('n')
        y = sc.arr('y', n)
        a.tr.lens['y'] = n
        other = lambda j: sel('y', j)
        args = [h, y, n]
        desc = dict(b=[['y', 0, n]])
    else:
        n = a.hl[1]
        other = lambda j: a.x(1, j)
        args = [h, a.h[1]]
        desc = dict(b=a.h[1])
    hl = a.hl[0]
    want = tm.conj([eq(hl, n, 64)] + [or_(ule(hl, j, 64), eq(a.x(0, j), other(j), 8), 1) for j in range(32)])
    sfx = '_slice' if slc else ''
    # two searches: the lengths differ, or only some byte does
    for fn, neg in (('h_h_eq' + sfx, 0), ('h_h_ne' + sfx, 1)):
        tr = a.tr.copy()
        k = tr.call(fn, *args)
        tr.want(kind='eqbytes', step=k, a=h, neg=neg, **desc)
        sc.hint_traces = [tr]
        for st, _ in sc.sts:
            for s1, r in a.run(st, fn, args, [tr]):
                w = not_(want) if neg else want
                r = r if type(r) is not bool else int(r)
                part.prove_quiet(fn, sc, s1, eq(r, w, 1), [tr])
    part.bounds.append('every length 1..32 of a hash, every content, every length of the slice up to 2^56' if slc else 'every two lengths 1..32 and every two contents')
    part.ok('== and != %s' % ('against slices' if slc else 'between hashes'))
