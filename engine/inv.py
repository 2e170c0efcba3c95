"""The reference representation: what a hashing state looks like after n bytes.

R(n) is obtained by running the code itself: construct, then one update of n bytes, n symbolic.  The
histories of a state are then covered by induction over the calls:

    construct         ~ R(0)
    R(a); update(b)   ~ R(a + b)          for all a, b
    R(n); finalize    ~ R(n), and the hash is the specified one

where ~ is equality of every byte of the object that R does not leave free.  Bytes that differ between
histories without being read again (the stale end of the block buffer) are found by weakening R: their
constant parts are replaced by unconstrained values until the steps close (Houdini).
"""
import terms as tm
from terms import T, add, eq, ite, not_, mask
import interp as I
import stream as S
from smt import Env

_n = [0]


class NotClosed(Exception):
    """the state after a step is not the reference state"""

    def __init__(self, st, what, model, conds=()):
        Exception.__init__(self, what)
        self.st = st
        self.what = what
        self.model = model
        self.conds = conds


class Ref(object):
    def __init__(self, sc, ptr, n, tag):
        """n: the variables (a tuple of terms) the reference depends on"""
        self.sc = sc
        self.ptr = ptr
        self.n = n if type(n) is tuple else (n,)
        self.tag = tag
        self.base = ()
        self.items = []      # (conditions, data, variables to rename)

    def record(self, base, sts):
        """base: path condition before the calls"""
        self.base = base
        for st in sts:
            self.sc.e.tidy(st)
            assert st.pc[:len(base)] == base
            conds = list(st.pc[len(base):])
            data = list(st.mem[self.ptr.obj].data)
            self.items.append((conds, data))

    def weaken(self, todo):
        """leave open what the given bytes hold in the given cases; todo: [(case, byte, env)] where env
        assigns the variables of the reference"""
        ch = False
        for k, i, env in todo:
            x = self.items[k][1][i]
            if x is None:
                continue
            b = I.entry_byte(x)
            if b is None:
                continue
            v = tm.var('any!%s!%d' % (self.tag, i), 8)
            r = leaf(b, env)
            if r is v:
                continue
            if type(r) is not T:
                # one constant in a block of them: leave all of its constants open, in every case
                for conds, data in self.items:
                    y = I.entry_byte(data[i]) if data[i] is not None else None
                    if y is not None:
                        data[i] = (loosen(y, v), 0)
            else:
                self.items[k][1][i] = (cutleaf(b, env, v), 0)
            ch = True
        return ch

    def at(self, N):
        """instances of R at N bytes: [(conditions, data, free variable names)]"""
        _n[0] += 1
        k = _n[0]
        out = []
        for conds, data in self.items:
            m = dict(zip(self.n, N if type(N) is tuple else (N,)))
            names = set()
            for c in conds:
                names |= tm.leaves(c)
            for x in data:
                if type(x) is tuple:
                    names |= leaves_of(x[0])
            free = set()
            for nm in names:
                if nm.startswith('K!') or nm.startswith('any!') or nm.startswith('havoc!'):
                    w = 64 if nm.startswith('K!') else 8
                    v = tm.var('%s.%d' % (nm, k), w)
                    m[tm.var(nm, w)] = v
                    if w == 8:
                        free.add(v.args[0])
            memo = {}
            cs = [tm.subst(c, m, memo) for c in conds]
            d = []
            for x in data:
                if type(x) is tuple:
                    v = subval(x[0], m, memo)
                    if type(v) is int:
                        w = x[0].w
                        d.append(v if w == 8 else (tm.const(v, w), x[1]))
                    else:
                        d.append((v, x[1]))
                else:
                    d.append(x)
            out.append((cs, d, free, m))
        return out


def leaf(b, env):
    """the alternative of a byte that env selects"""
    while type(b) is T and b.op == 'ite':
        b = b.args[1] if env.val(b.args[0]) else b.args[2]
    return b.args[0] if type(b) is T and b.op == 'const' else b


def cutleaf(b, env, v):
    if type(b) is T and b.op == 'ite':
        c, x, y = b.args
        if env.val(c):
            return ite(c, cutleaf(x, env, v), y, 8)
        return ite(c, x, cutleaf(y, env, v), 8)
    return v


def loosen(b, v, memo=None):
    if type(b) is not T:
        return v
    if memo is None:
        memo = {}
    r = memo.get(b)
    if r is None:
        if b.op == 'ite':
            r = ite(b.args[0], loosen(b.args[1], v, memo), loosen(b.args[2], v, memo), 8)
        elif b.op == 'const':
            r = v
        else:
            r = b
        memo[b] = r
    return r


def leaves_of(v):
    if type(v) is T:
        return tm.leaves(v)
    if type(v) is I.Ptr:
        return tm.leaves(v.off) if type(v.off) is T else frozenset()
    if type(v) is I.PIte:
        return tm.leaves(v.c) | leaves_of(v.a) | leaves_of(v.b)
    return frozenset()


def subval(v, m, memo):
    if type(v) is T:
        return tm.subst(v, m, memo)
    if type(v) is I.Ptr:
        return I.Ptr(v.obj, tm.subst(v.off, m, memo)) if type(v.off) is T else v
    if type(v) is I.PIte:
        c = tm.subst(v.c, m, memo) if type(v.c) is T else v.c
        if type(c) is not T:
            return subval(v.a if c else v.b, m, memo)
        return I.PIte(c, subval(v.a, m, memo), subval(v.b, m, memo))
    return v


def enter(sc, st, pairs):
    """states in which the objects are R(N): pairs = [(Ref, N)] -> list of states"""
    sts = [st.copy()]
    e = sc.e
    for ref, N in pairs:
        nxt = []
        for s in sts:
            for cs, data, free, _ in ref.at(N):
                s2 = s.copy()
                o = s2.wobj(ref.ptr.obj)
                o.data = list(data)
                ok = True
                for c in cs:
                    if type(c) is not T:
                        ok = ok and bool(c)
                        continue
                    s2.pc = s2.pc + (c,)
                    e.add_fact(s2, c, True)
                if not ok:
                    continue
                r, m = e.smt.check(list(s2.pc), True)
                if r == 'unsat':
                    continue
                if r != 'sat':
                    raise I.Incomplete('solver undecided on a reference state')
                s2.models = [m]
                nxt.append(s2)
        sts = nxt
    return sts


def differ(e, st, x, y, free, w):
    """condition implied to hold whenever x != y cannot be avoided by choosing the free variables"""
    if x is y:
        return 0
    if y is I.UNDEF:
        return 0
    if x is I.UNDEF:
        return 1
    if type(x) in (int, T) and type(y) in (int, T):
        x = e.norm(st, x) if type(x) is T else x
        y = e.norm(st, y) if type(y) is T else y
        return dval(x, y, free, w)
    if type(x) is I.PIte or type(y) is I.PIte:
        return dptr(e, st, x, y, free)
    if type(x) is not type(y):
        return 1
    if type(x) is I.Ptr:
        if x.obj != y.obj:
            return 1
        return tm.ne(x.off, y.off, 64)
    return 0 if x == y else 1


def dptr(e, st, x, y, free):
    x = e.norm(st, x)
    y = e.norm(st, y)
    if type(x) is I.PIte:
        return ite(x.c, dptr(e, st, x.a, y, free), dptr(e, st, x.b, y, free), 1)
    if type(y) is I.PIte:
        return ite(y.c, dptr(e, st, x, y.a, free), dptr(e, st, x, y.b, free), 1)
    return differ(e, st, x, y, free, 64)


def dval(x, y, free, w):
    if x is y or (type(x) is not T and type(y) is not T and x == y):
        return 0
    if type(y) is T and y.op == 'var' and y.args[0] in free:
        return 0
    if type(y) is T and y.op == 'ite':
        return ite(y.args[0], dval(x, y.args[1], free, w), dval(x, y.args[2], free, w), 1)
    for u, v in ((x, y), (y, x)):
        # H(0) is the initial value
        if type(u) is T and u.op == 'uf' and u.args[0] in tm.INIT and not (type(v) is T and v.op == 'uf'):
            i = u.args[1][1][0]
            z = tm.INIT[u.args[0]][i]
            if v is z or (type(v) is not T and type(z) is not T and v == z):
                return tm.ne(u.args[1][0][0], 0, 64)
    if type(x) is T and x.op == 'ite':
        return ite(x.args[0], dval(x.args[1], y, free, w), dval(x.args[2], y, free, w), 1)
    if type(x) is T and type(y) is T:
        if x.op == 'sel' and y.op == 'sel' and x.args[0] == y.args[0]:
            return tm.ne(x.args[1], y.args[1], 64)
        if x.op == 'uf' and y.op == 'uf' and x.args[0] == y.args[0]:
            return tm.disj([tm.ne(p, q, vw) for (p, vw), (q, _) in zip(x.args[1], y.args[1])])
        if x.op == 'ext' and y.op == 'ext' and x.args[1] == y.args[1]:
            a, b = x.args[0], y.args[0]
            if a.op == 'uf' and b.op == 'uf' and a.args[0] == b.args[0]:
                return tm.disj([tm.ne(p, q, vw) for (p, vw), (q, _) in zip(a.args[1], b.args[1])])
    return tm.ne(x, y, w)


def diffs(e, st, actual, data, free):
    """[(byte indices, condition)] under which the object differs from the reference"""
    out = []
    i = 0
    n = len(data)
    while i < n:
        y = data[i]
        x = actual[i]
        if y is None or x is y:
            i += 1
            continue
        wy = e.run_at(data, i)
        wx = e.run_at(actual, i)
        span = None
        for s in (wy, wx):
            if s is not None and s[0] == i and (span is None or s[1] > span[1]):
                span = s
        if span is not None and span[1] > 1:
            lo, ln = span
            vx = e.word(actual, lo, ln)
            vy = e.word(data, lo, ln)
            if vx is not None and vy is not None and vx is not I.UNDEF and vy is not I.UNDEF:
                d = differ(e, st, vx, vy, free, 8 * ln)
                if type(d) is T or d:
                    out.append((list(range(lo, lo + ln)), d))
                i = lo + ln
                continue
        bx = I.entry_byte(x) if x is not None else None
        by = I.entry_byte(y)
        if by is None or bx is None:
            if type(x) is tuple and type(y) is tuple and x[1] == y[1] and x[0] == y[0]:
                i += 1
                continue
            out.append(([i], 1))
        else:
            d = differ(e, st, bx, by, free, 8)
            if type(d) is T or d:
                out.append(([i], d))
        i += 1
    return out


def same(sc, st, ref, N, weaken=True):
    """prove that the object is R(N) in state st.  -> (True, None), (False, indices) if weakening may
    help, or raises NotClosed with a model"""
    e = sc.e
    again = []
    at = ref.at(N)
    for st in cases(e, st, ref.ptr.obj):
        again += same1(sc, st, ref, at, weaken)
    if again:
        return False, again
    return True, None


def cases(e, st, oid, limit=32, least=16):
    """the state, split by the choices that many of the object's words depend on"""
    todo = [st]
    out = []
    while todo:
        s = todo.pop()
        e.tidy(s)
        best = None
        if len(out) + len(todo) < limit:
            n = {}
            seen = set()
            for x in s.mem[oid].data or ():
                if type(x) is tuple and type(x[0]) is T and x[0] not in seen:
                    seen.add(x[0])
                    for c in choices(x[0]):
                        n[c] = n.get(c, 0) + 1
            many = [c for c, k in n.items() if k >= least and c not in s.facts]
            if len(many) > 1:
                best = max(many, key=lambda c: (n[c], -c.id))
        if best is None:
            out.append(s)
            continue
        t, f = e.branch(s, best)
        if t is None or f is None:
            x = t or f
            if best not in x.facts:
                e.add_fact(x, best, t is not None)
        todo += [x for x in (f, t) if x is not None]
    return out


def choices(t):
    """the conditions of a term's choices, without those inside other conditions"""
    seen = set()
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            out.add(x.args[0])
            todo += [y for y in x.args[1:] if type(y) is T]
        else:
            todo += list(tm.children(x))
    return out


def same1(sc, st, ref, at, weaken):
    e = sc.e
    again = []
    for case, (cs, data, free, sub) in enumerate(at):
        s = st.copy()
        ok = True
        for c in cs:
            if type(c) is not T:
                ok = ok and bool(c)
                continue
            s.pc = s.pc + (c,)
            e.add_fact(s, c, True)
        if not ok:
            continue
        r, m = e.smt.check(list(s.pc), True)
        if r == 'unsat':
            continue
        if r != 'sat':
            raise I.Incomplete('solver undecided on a reference state')
        s.models = [m]
        ds = diffs(e, s, s.mem[ref.ptr.obj].data, data, free)
        ds = [(ix, d) for ix, d in ds if type(d) is T or d]
        left = ds
        while left:
            grp, left = left[:8], left[8:]
            while grp:
                ok, m = e.prove(s, not_(tm.disj([d for _, d in grp])))
                if ok:
                    break
                if ok is None and len(grp) > 1:
                    left = [g for g in grp[1:]] + left
                    grp = grp[:1]
                    continue
                if ok is None:
                    raise I.Incomplete('solver undecided on a state comparison')
                env = Env({k.args[0]: m.val(v) for k, v in sub.items()})

                def can(ix):
                    return weaken and all(loose(ref.items[case][1][i], env) for i in ix)
                bad = [x for x in grp if m.val(x[1])]
                for ix, d in bad:
                    if not can(ix):
                        raise NotClosed(s, 'byte %d of %s' % (ix[0], ref.tag), m, [d] if type(d) is T else [])
                    again += [(case, i, env) for i in ix]
                    e.hints.append(('weak', s.pc + ((d,) if type(d) is T else ())))
                # other weak bytes that differ in the same model
                more = [x for x in left if m.val(x[1]) and can(x[0])]
                for ix, d in more:
                    again += [(case, i, env) for i in ix]
                done = set(id(x) for x in bad + more)
                left = [x for x in left if id(x) not in done]
                grp = [x for x in grp if id(x) not in done]
                if not bad:
                    raise I.Incomplete('model does not show a difference')
    return again


def loose(x, env):
    """can the value this byte has in the given case be left open?"""
    b = I.entry_byte(x) if x is not None else None
    if b is None:
        return False
    r = leaf(b, env)
    if type(r) is not T:
        return True
    return r.op == 'sel'
