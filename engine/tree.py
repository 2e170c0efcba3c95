"""Parts about BLAKE2sp: eight leaves and a root."""
import terms as tm
from terms import T, add, sub, eq, ne, ite, ule, ult, not_, ext, sel, and_, or_, lshr, shl
import interp as I
import stream as S
import spec
import single as G
from chk import Trace, Undecided

MAXLEN = 1 << 56


class SpPar(object):
    """parameters of the tree: hash length and key"""

    def __init__(self, sc, key=None, sym=True):
        self.sc = sc
        self.key = key
        self.hlv = 32
        if sym:
            self.hlv = tm.var('hl', 64)
            sc.assume(ule(1, self.hlv, 64), ule(self.hlv, 32, 64))
        self.sym = sym
        self.kn = 0
        self.kp = None
        if key:
            self.kn = tm.var('kn', 64)
            sc.assume(ule(1, self.kn, 64), ule(self.kn, 32, 64))
            self.kp = sc.arr('key', self.kn)
        elif sym:
            self.kp = sc.arr('key', 0)
        self.koff = 512 if key else 0

    def build(self, p):
        out = [('h_sp_p_new', (p,))]
        if self.sym:
            out.append(('h_sp_p_hash_length', (p, self.hlv)))
        if self.kp is not None:
            out.append(('h_sp_p_key', (p, self.kp, self.kn)))
        return out

    def words(self, i):
        """leaf i, or the root for i = 8"""
        b8 = lambda x: ext(x, 0, 8) if type(x) is T else x
        return spec.param_words(digest_length=b8(self.hlv), key_length=b8(self.kn), fanout=8, depth=2, leaf_length=0,
                                node_offset=i if i < 8 else 0, node_depth=0 if i < 8 else 1, inner_length=32)

    def free_words(self, i):
        if not self.sym and not self.key:
            return self.words(i)
        return [tm.var('iv!L%d!%d' % (i, k), 32) for k in range(8)]

    def leafbyte(self, i, m):
        """byte t of leaf i; the key blocks stand before the message"""
        def f(t):
            if type(t) is not T:
                return sel(m, (t // 64 * 512 + 64 * i + t % 64 - self.koff) & tm.mask(64))
            x = add(shl(lshr(t, 6, 64), 9, 64), tm.zext(ext(t, 0, 6), 6, 64), 64)
            return sel(m, add(x, 64 * i - self.koff, 64))
        return f

    def padkey(self):
        return [ite(ult(i, self.kn, 64), sel('key', i), 0, 8) for i in range(32)] + [0] * 32

    def oracle(self, msg):
        d = dict(algo='blake2sp', msg=msg, digest_length=self.hlv)
        if self.key:
            d['key'] = [['key', 0, self.kn]]
        return d


def leaflen(n, i):
    """bytes of leaf i when the tree has had n"""
    if type(n) is not T:
        return 64 * (n // 512) + min(64, max(0, n % 512 - 64 * i))
    r = tm.zext(ext(n, 0, 9), 9, 64)
    part = ite(ule(r, 64 * i, 64), 0, ite(ule(64 * i + 64, r, 64), 64, sub(r, 64 * i, 64), 64), 64)
    return add(shl(lshr(n, 9, 64), 6, 64), part, 64)


class Tree(object):
    def __init__(self, part, key=None, sym=True, name='tree', how='params', std=True, **kw):
        self.part = part
        sc = self.sc = part.scenario(name, **kw)
        self.e = sc.e
        self.par = SpPar(sc, key, sym)
        self.how = how
        self.s = sc.obj('s', 'SpState')
        self.h = sc.obj('h', 'Hash')
        self.p = sc.obj('p', 'SpParams')
        self.leaf = [sc.layer.add(S.Stream('L%d' % i, self.par.free_words(i), self.par.leafbyte(i, 'm'))) for i in range(8)]
        self.rootw = self.par.free_words(8)
        self.nroot = 0
        self.root = None

    def construct(self):
        if self.how in ('new', 'default'):
            return [('h_sp_' + self.how, (self.s,))]
        return self.par.build(self.p) + [('h_sp_p_to_state', (self.p, self.s))]

    def abstract(self, st):
        """the parameter words of the nine nodes and the key blocks become unconstrained"""
        par = self.par
        if not par.sym and not par.key:
            return True
        e = self.e
        o = st.wobj(self.s.obj)
        data = o.data
        found = set()
        i = 0
        while i + 32 <= len(data):
            got = [e.word(data, i + 4 * k, 4) if data[i + 4 * k] is not None else None for k in range(8)]
            if all(x is not None and x is not I.UNDEF and type(x) in (int, T) for x in got):
                for n in range(9):
                    if n not in found and quick(st, got, par.words(n)) and G.same_words(e, st, got, par.words(n)):
                        for k in range(8):
                            v = tm.var('iv!L%d!%d' % (n, k), 32)
                            for b in range(4):
                                data[i + 4 * k + b] = (v, b)
                        found.add(n)
                        i += 28
                        break
            i += 4
        if len(found) < 9:
            return False
        if not par.key:
            return True
        want = par.padkey()
        at = []
        i = 0
        while i + 64 <= len(data):
            got = [I.entry_byte(x) if x is not None else None for x in data[i:i + 64]]
            if all(x is not None for x in got) and any(type(x) is T for x in got) and quick(st, got, want) and G.same_words(e, st, got, want, 8):
                at.append(i)
                i += 64
            else:
                i += 1
        for a in at:
            if all(a + 64 * k in at for k in range(8)):
                for k in range(512):
                    data[a + k] = (sel('m', (k - 512) & tm.mask(64)), 0)
                return True
        return False

    def digest(self, n):
        """specified digest bytes after n bytes of message; makes the root stream of that length"""
        if self.root is not None:
            self.sc.layer.streams.pop(self.root.sid, None)
        n = add(n, self.par.koff, 64)
        ws = []
        for i, l in enumerate(self.leaf):
            ws += S.wbytes(l.d(leaflen(n, i), 1 if i == 7 else 0))
        byte = lambda t: ws[t] if type(t) is not T else self.pick(ws, t)
        self.root = self.sc.layer.add(S.Stream('R%d' % self.nroot, self.rootw, byte))
        self.nroot += 1
        return S.wbytes(self.root.d(256, 1))

    def pick(self, ws, t):
        r = ws[-1]
        for k in range(len(ws) - 1):
            r = ite(eq(t, k, 64), ws[k], r, 8)
        return r

    def check(self, st, n, want, traces, hptr=None):
        sc, part = self.sc, self.part
        st2, ln, q = sc.hash_of(st.copy(), hptr or self.h)
        hl = self.par.hlv
        part.prove_quiet('digest length', sc, st2, eq(ln, hl, 64), traces)
        bb = sc.bytes(st2, q, 32)
        conds = []
        for k, (x, y) in enumerate(zip(bb, want)):
            c = not_(S.diff8(x, y, 0)) if x is not None else 0
            if type(hl) is T:
                c = or_(ule(hl, k, 64), c, 1)
            conds.append(c)
        part.prove_quiet('digest', sc, st2, tm.conj(conds), traces)


def quick(st, got, want):
    for env in st.models[:1]:
        for x, y in zip(got, want):
            if env.val(x) != env.val(y):
                return False
    return True


FIXED = [(0, 0, 1), (1, 63, 1), (64, 448, 1), (511, 2, 600), (960, 1), (961, 64), (1024, 1), (1025, 447), (1, 1023, 449), (1, 1024), (1024, 448), (1024, 449), (1024, 512),
         (512, 512, 1024), (3, 1469, 100), (3, 1470, 490), (1600, 7, 900), (2048, 1), (130, 1900)]


def fixed(part, key=None, sym=True, how='params', lens=FIXED, portable=False, checks=('digest', 'count'), name='fixed lengths'):
    """updates of given lengths with a digest and a count after each; contents, key and hash length symbolic"""
    for ns in lens:
        t = Tree(part, key, sym, 'tree %s' % (ns,), how)
        sc = t.sc
        total = sum(ns)
        m = sc.arr('m', total)
        base = Trace(sc, lens={'m': total})

        def do(fn, *args):
            base.call(fn, *args)
            sc.call(fn, *args)
            if not part.panics(sc, '%s: %s' % (sc.name, fn), base.copy()):
                raise Undecided('possible panic')
            if not sc.sts:
                raise Undecided('no state left')
        for fn, args in t.construct():
            do(fn, *args)
        if portable and portable != 'mid':
            do('h_sp_force_portable', t.s)
        for st, vals in sc.sts:
            if not t.abstract(st):
                # nothing is generalised: the digests are compared as they are
                tr = base.copy()
                tr.call('h_sp_finalize', t.s, t.h)
                tr.want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, 0]]))
                part.cex('construction', [tr], sc, st, [])
                raise Undecided('the new state does not hold the specified parameter words and key blocks')
        pos = 0
        if 'count' in checks:
            do_count(part, t, base, 0, key)
        for n in ns:
            do('h_sp_update', t.s, I.Ptr(m.obj, pos), n)
            pos += n
            if portable == 'mid' and pos == n:
                do('h_sp_force_portable', t.s)
            if 'digest' in checks:
                want = t.digest(pos)
                do('h_sp_finalize', t.s, t.h)
                tr = base.copy().want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, pos]]))
                for st, vals in sc.sts:
                    t.check(st, pos, want, [tr])
            if 'count' in checks:
                do_count(part, t, base, pos, key)
    part.bounds.append('%s: tree updates of lengths %s' % (name, lens))
    part.ok('%s: %d chains of tree updates' % (name, len(lens)))


def oneshot(part):
    lens = (0, 1, 64, 65, 511, 513, 960, 961, 1024, 1025, 1500, 2049)
    for n in lens:
        t = Tree(part, None, False, 'blake2sp %d' % n, 'new')
        sc = t.sc
        m = sc.arr('m', n)
        want = t.digest(n)
        tr = Trace(sc, [('h_blake2sp', (m, n, t.h))], lens={'m': n})
        tr.want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, n]]))
        sc.call('h_blake2sp', m, n, t.h)
        if not part.panics(sc, 'blake2sp', tr) or not sc.sts:
            raise Undecided('possible panic')
        for st, vals in sc.sts:
            t.check(st, n, want, [tr])
    part.bounds.append('blake2sp on messages of lengths %s' % (lens,))
    part.ok('blake2sp on %d lengths' % len(lens))


def do_count(part, t, base, n, key):
    sc = t.sc
    tr = base.copy()
    tr.call('h_sp_count', t.s)
    tr.want(kind='ret', step=len(tr.steps) - 1, value=n)
    for st, vals in sc.sts:
        for x, r in sc.e.run('@h_sp_count', st.copy(), [t.s]):
            part.prove_quiet('count', sc, x, eq(r, n, 64), [tr])
    if not part.panics(sc, 'count', tr):
        raise Undecided('possible panic')


def symbolic(part, key=None, sym=True, how='params', k=1, cap=MAXLEN, name='one update'):
    """k updates of any lengths, then finalize"""
    t = Tree(part, key, sym, name, how)
    sc = t.sc
    sc.e.must_close = True
    ns = [sc.length('n%d' % i, hi=cap) for i in range(k)]
    tot = [0]
    for x in ns:
        tot.append(add(tot[-1], x, 64))
    for x in tot[2:]:
        sc.assume(ule(x, cap, 64))
    m = sc.arr('m', tot[-1])
    base = Trace(sc, lens={'m': tot[-1]})

    def do(fn, *args):
        base.call(fn, *args)
        sc.call(fn, *args)
        if not part.panics(sc, '%s: %s' % (name, fn), base.copy()):
            raise Undecided('possible panic')
        if not sc.sts:
            raise Undecided('no state left')
    for fn, args in t.construct():
        do(fn, *args)
    for st, vals in sc.sts:
        if not t.abstract(st):
            raise Undecided('the new state does not hold the specified parameter words and key blocks')
    for i in range(k):
        tr = base.copy()
        tr.call('h_sp_update', t.s, I.Ptr(m.obj, tot[i]), ns[i])
        tr.call('h_sp_finalize', t.s, t.h)
        sc.hint_traces = [tr.want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, tot[i + 1]]]))]
        do('h_sp_update', t.s, I.Ptr(m.obj, tot[i]), ns[i])
    want = t.digest(tot[-1])
    do('h_sp_finalize', t.s, t.h)
    tr = base.copy().want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, tot[-1]]]))
    for st, vals in sc.sts:
        t.check(st, tot[-1], want, [tr])
    part.bounds.append('%s: %d tree updates, total length <= %d' % (name, k, cap))
    part.ok('%s: digest of %d tree updates of any lengths up to %d in all' % (name, k, cap))


def writes(part, key=None):
    """the last resort: write and flush with given lengths"""
    for ns in FIXED:
        t = Tree(part, key, True, 'tree writes %s' % (ns,))
        sc = t.sc
        m = sc.arr('m', sum(ns))
        base = Trace(sc, lens={'m': sum(ns)})

        def do(fn, *args):
            base.call(fn, *args)
            sc.call(fn, *args, ret='r')
            if not part.panics(sc, '%s: %s' % (sc.name, fn), base.copy()):
                raise Undecided('possible panic')
            if not sc.sts:
                raise Undecided('no state left')

        def result(want):
            tr = base.copy().want(kind='ret', step=len(base.steps) - 1, value=want)
            for st, vals in sc.sts:
                r = vals['r']
                part.prove_quiet('result', sc, st, eq(r, want, r.w if type(r) is T else 64), [tr])
        for fn, args in t.construct():
            base.call(fn, *args)
            sc.call(fn, *args)
        for st, vals in sc.sts:
            if not t.abstract(st):
                raise Undecided('the new state does not hold the specified parameter words and key blocks')
        pos = 0
        for n in ns:
            do('h_sp_write', t.s, I.Ptr(m.obj, pos), n)
            result(n)
            do('h_sp_flush', t.s)
            result(0)
            pos += n
            want = t.digest(pos)
            sc.call('h_sp_finalize', t.s, t.h)
            base.call('h_sp_finalize', t.s, t.h)
            tr = base.copy().want(kind='digest', hash=t.h, **t.par.oracle([['m', 0, pos]]))
            for st, vals in sc.sts:
                t.check(st, pos, want, [tr])
    part.bounds.append('tree writes of lengths %s' % (FIXED,))
    part.ok('tree writes of fixed lengths')
