"""Parts about the parameter builders (P06)."""
import terms as tm
from terms import T, eq, ne, ule, ult, not_, ext, sel, or_
import interp as I
import stream as S
import single as G
import tree as TR
from chk import Trace, Undecided

# setter -> (kind of value, bits or None for a slice, legal values)
SEQ = [('hash_length', 64, lambda v: tm.and_(ule(1, v, 64), ule(v, 32, 64), 1)),
       ('key', None, lambda v: ule(v, 32, 64)),
       ('fanout', 8, lambda v: 1),
       ('max_depth', 8, lambda v: ne(v, 0, 8)),
       ('max_leaf_length', 32, lambda v: 1),
       ('node_offset', 64, lambda v: ult(v, 1 << 48, 64)),
       ('node_depth', 8, lambda v: 1),
       ('inner_hash_length', 64, lambda v: ule(v, 32, 64)),
       ('salt', None, lambda v: ule(v, 8, 64)),
       ('personal', None, lambda v: ule(v, 8, 64)),
       ('last_node', 1, lambda v: 1)]
TREE = [SEQ[0], SEQ[1]]
FIELD = dict(hash_length='digest_length', fanout='fanout', max_depth='depth', max_leaf_length='leaf_length', node_offset='node_offset', node_depth='node_depth', inner_hash_length='inner_length')


class Vals(object):
    """symbolic values for all the setters, legal ones"""

    def __init__(self, sc, sfx, spec, legal=True):
        self.v = {}
        self.names = {}
        for name, w, ok in spec:
            x = tm.var(name + sfx, 64 if w is None else w)
            if legal:
                sc.assume(ok(x))
            elif w is None:
                sc.assume(ule(x, 1 << 56, 64))
            if w is None:
                self.names[name] = name + sfx
                self.v[name] = (sc.arr(name + sfx, x), x)
            else:
                self.v[name] = x
            if w is None or w == 64:
                sc.min.append(x)

    def copy(self):
        r = Vals.__new__(Vals)
        r.v = dict(self.v)
        r.names = dict(self.names)
        return r

    def put(self, name, other):
        r = self.copy()
        r.v[name] = other.v[name]
        if name in other.names:
            r.names[name] = other.names[name]
        return r

    def args(self, name):
        x = self.v[name]
        return list(x) if type(x) is tuple else [x]

    def oracle(self, msg, tree):
        if tree:
            return dict(algo='blake2sp', msg=msg, digest_length=self.v['hash_length'], key=[[self.names['key'], 0, self.v['key'][1]]])
        P = {FIELD[k]: x for k, x in self.v.items() if k in FIELD}
        z = [{'bytes': [0] * 8}, 0, 0]
        P['salt'] = [[self.names['salt'], 0, self.v['salt'][1]], z]
        P['personal'] = [[self.names['personal'], 0, self.v['personal'][1]], z]
        return dict(algo='blake2s', msg=msg, params=P, last=self.v['last_node'], key=[[self.names['key'], 0, self.v['key'][1]]])


class Build(object):
    def __init__(self, part, tree, name):
        self.part = part
        self.tree = tree
        self.spec = TREE if tree else SEQ
        self.pre = 'h_sp_p_' if tree else 'h_p_'
        sc = self.sc = part.scenario(name)
        self.e = sc.e
        k = 'Sp' if tree else ''
        self.p = sc.obj('p', k + 'Params')
        self.q = sc.obj('q', k + 'Params')
        self.s = sc.obj('s', k + 'State')
        self.h = sc.obj('h', 'Hash')
        self.ms = sc.arr('m', 3)

    def set(self, p, name, vals):
        return (self.pre + name, tuple([p] + vals.args(name)))

    def all(self, p, vals, order=None):
        """every setter once, from new()"""
        return [(self.pre + 'new', (p,))] + [self.set(p, n, vals) for n in order or [x[0] for x in self.spec]]

    def hash(self, p):
        t = 'h_sp_' if self.tree else 'h_s_'
        return [(self.pre + 'to_state', (p, self.s)), (t + 'update', (self.s, self.ms, 3)), (t + 'finalize', (self.s, self.h))]

    def trace(self, calls, vals=None, p=None):
        if vals is None:
            return Trace(self.sc, calls)
        t = Trace(self.sc, calls + self.hash(p or self.p), lens={'m': 3})
        return t.want(kind='digest', hash=self.h, **vals.oracle([['m', 0, 3]], self.tree))

    def run(self, sts, calls, traces):
        for fn, args in calls:
            nxt = []
            for st in sts:
                nxt += [x for x, _ in self.e.run('@' + fn, st, list(args))]
            sts = nxt
            if not self.part.panics(self.sc, fn, traces):
                raise Undecided('possible panic in %s' % fn)
        self.sc.sts = [(x, {}) for x in sts]
        self.sc.merge()
        return [x for x, _ in self.sc.sts]

    def equal(self, st, p, q, what, traces):
        a = st.mem[p.obj].data
        b = st.mem[q.obj].data
        conds = []
        for x, y in zip(a, b):
            if x is None and y is None:
                continue
            x = I.entry_byte(x) if x is not None else None
            y = I.entry_byte(y) if y is not None else None
            if x is None or y is None:
                conds.append(0)
                continue
            c = eq(x, y, 8)
            if type(c) is T or not c:
                conds.append(c)
        self.part.prove_quiet(what, self.sc, st, tm.conj(conds), traces)


def closed(part, tree=False):
    """R(A) = all setters once from new(); every setter takes R(A) to R(A with that value replaced)"""
    b = Build(part, tree, 'setters')
    sc = b.sc
    A = Vals(sc, '', b.spec)
    V = Vals(sc, '!v', b.spec)
    st0 = sc.sts[0][0]
    ra = b.all(b.p, A)
    sts = b.run([st0.copy()], ra, [b.trace(ra)])
    for name, w, ok in b.spec:
        B = A.put(name, V)
        call = b.set(b.p, name, V)
        tr = b.trace(ra + [call], B)
        rb = b.all(b.q, B)
        for st in b.run([x.copy() for x in sts], [call] + rb, [tr]):
            b.equal(st, b.p, b.q, '%s on any builder is the same as setting only that value' % name, [tr])
        part.ok('%s: replaces its value, keeps the others, in any builder' % name)
    # the start of every history, and clones
    for fn in ('new', 'default'):
        D = A.copy()
        dflt = dict(hash_length=32, fanout=1, max_depth=1, max_leaf_length=0, node_offset=0, node_depth=0, inner_hash_length=0, last_node=0)
        for name, w, ok in b.spec:
            D.v[name] = (A.v[name][0], 0) if w is None else dflt[name]
        c = [(b.pre + fn, (b.p,))]
        tr = b.trace(c, D)
        for st in b.run([st0.copy()], c + b.all(b.q, D), [tr]):
            b.equal(st, b.p, b.q, '%s() is the builder with the default values' % fn, [tr])
    c = ra + [(b.pre + 'clone', (b.p, b.q))]
    tr = b.trace(c, A, b.q)
    for st in b.run([x.copy() for x in sts], c[-1:], [tr]):
        b.equal(st, b.p, b.q, 'a clone is the same builder', [tr])
    part.ok('new, default and clone')
    part.bounds.append('every value of every setter, any number of setter calls in any order (induction)')


def legal(part, tree=False):
    """every setter panics on its illegal values and on no others"""
    b = Build(part, tree, 'legal values')
    sc = b.sc
    sc.e.panics_ok = True
    A = Vals(sc, '', b.spec)
    V = Vals(sc, '!v', b.spec, False)
    ra = b.all(b.p, A)
    sts = b.run([sc.sts[0][0].copy()], ra, [b.trace(ra)])
    for name, w, ok in b.spec:
        good = ok(V.v[name][1] if w is None else V.v[name])
        call = b.set(b.p, name, V)
        for st in sts:
            t = b.trace(ra + [call], A.put(name, V))
            for g in ([good] if good != 1 or type(good) is T else [1]):
                x = restrict(b.e, st, g)
                if x is not None:
                    b.run([x], [call], [t])
                y = restrict(b.e, st, not_(g))
                if y is None:
                    continue
                tp = b.trace(ra + [call]).want(kind='panic')
                out = [z for z, _ in b.e.run('@' + call[0], y, list(call[1]))]
                bad = [z for z in b.e.panics if z[0] != 'panic']
                b.e.panics[:] = bad
                if not part.panics(sc, name, tp):
                    raise Undecided('memory fault in %s' % name)
                for z in out:
                    part.cex('%s accepts an illegal value' % name, [tp], sc, z, [])
                    raise Undecided('%s returns on an illegal value' % name)
        part.ok('%s panics exactly on the illegal values' % name)
    part.bounds.append('every value of every setter argument')


def restrict(e, st, c):
    if type(c) is not T:
        return st.copy() if c else None
    a, _ = e.branch(st.copy(), c)
    return a


def digests(part, tree=False, key=True):
    """the digest under all setters called twice, in several orders"""
    spec = TREE if tree else SEQ
    names = [x[0] for x in spec]
    orders = [names, names[::-1], names[1::2] + names[0::2]]
    if tree:
        orders = [names, names[::-1]]
    for n, o in enumerate(orders):
        b = Build(part, tree, 'order %d' % n)
        sc = b.sc
        B = Vals(sc, '!b', b.spec)
        if tree:
            t = TR.SpPar(sc, key)
            A = Vals(sc, '!a', b.spec)
            A.v['hash_length'] = t.hlv
            A.v['key'] = (t.kp, t.kn)
            A.names['key'] = 'key'
        else:
            t = G.Params(sc, '', 'all', key)
            A = Vals(sc, '!a', b.spec)
            for k, f in FIELD.items():
                A.v[k] = t.P[f]
            A.v['last_node'] = t.last
            for k, arr, ln, nm in (('key', t.kp, t.kn, 'key'), ('salt', t.salt, t.sn, 'salt'), ('personal', t.personal, t.pn, 'pers')):
                A.v[k] = (arr, ln)
                A.names[k] = nm
        calls = b.all(b.p, B, o) + [b.set(b.p, x, A) for x in o[::-1]]
        tr = b.trace(calls, A)
        H = b.hash(b.p)
        sts = b.run([sc.sts[0][0].copy()], calls + H[:1], [tr])
        if tree:
            tt = TR.Tree.__new__(TR.Tree)
            tt.part, tt.sc, tt.e, tt.par, tt.s, tt.h = part, sc, sc.e, t, b.s, b.h
            tt.leaf = [sc.layer.add(S.Stream('L%d' % i, t.free_words(i), t.leafbyte(i, 'm'))) for i in range(8)]
            tt.rootw, tt.nroot, tt.root = t.free_words(8), 0, None
            for st in sts:
                if not tt.abstract(st):
                    part.cex('construction', [tr], sc, st, [])
                    raise Undecided('the new state does not hold the specified parameter words and key blocks')
            want = tt.digest(3)
            for st in b.run(sts, H[1:], [tr]):
                tt.check(st, 3, want, [tr])
        else:
            stm = sc.layer.add(S.Stream('s', t.free_words(), t.free_byte('m')))
            for st in sts:
                if G.abstract(sc, st, b.s, t, t.words()) < (2 if key else 1):
                    part.cex('construction', [tr], sc, st, [])
                    raise Undecided('the new state does not hold the specified parameter words and key block')
            for st in b.run(sts, H[1:], [tr]):
                st2, ln, p = sc.hash_of(st, b.h)
                part.prove_quiet('digest length', sc, st2, eq(ln, t.hl(), 64), [tr])
                bb = sc.bytes(st2, p, 32)
                want = S.wbytes(stm.d(3 + t.koff, t.last))
                conds = []
                for j, (x, y) in enumerate(zip(bb, want)):
                    c = not_(S.diff8(x, y, 0)) if x is not None else 0
                    conds.append(or_(ule(t.hl(), j, 64), c, 1))
                part.prove_quiet('digest', sc, st2, tm.conj(conds), [tr])
    part.bounds.append('setters called twice, in %d orders; message of 3 bytes' % len(orders))
    part.ok('digests after every setter was called twice, %d orders, %s' % (len(orders), 'keyed' if key else 'no key left'))
