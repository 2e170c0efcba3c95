"""Solver back end: terms -> z3, with counting, caching and slicing."""
import time
import hashlib
import z3
from terms import T, topo_memo, leaves, evaluate, mask
import terms as tm
from lia import Lia, NotLinear


class Env(object):
    """A concrete assignment; unassigned inputs get values derived from a seed."""

    def __init__(self, vars=None, sels=None, ufs=None, seed=0, seldef=None):
        self.vars = vars or {}
        self.sels = sels or {}
        self.ufs = ufs or {}
        self.seed = seed
        self.seldef = seldef or {}
        self.memo = {}

    def _h(self, *k):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=16).digest(), 'little')

    def var(self, n, w):
        v = self.vars.get(n)
        if v is None:
            v = self._h('v', n) & mask(w)
            self.vars[n] = v
        return v

    def sel(self, arr, i):
        v = self.sels.get((arr, i))
        if v is None:
            v = self._h('s', arr, i) & 0xff
            self.sels[(arr, i)] = v
        return v

    def uf(self, name, args, w):
        v = self.ufs.get((name, args))
        if v is None:
            v = self._h('u', name, args) & mask(w)
            self.ufs[(name, args)] = v
        return v

    def copy(self):
        return Env(dict(self.vars), dict(self.sels), dict(self.ufs), self.seed, self.seldef)

    def val(self, t):
        if type(t) is not T:
            return t
        if t in self.memo:
            return self.memo[t]
        return evaluate([t], self, self.memo)[0]


class Smt(object):
    def __init__(self, timeout_ms=20000):
        self.memo = {}
        self.funcs = {}
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.maxq = 0.0
        self.timeout = timeout_ms
        self.cache = {}
        self.cachehits = 0
        self.lia = Lia()
        self.lin = 0

    # ------------------------------------------------------------ translate
    def z(self, t, w=None):
        if type(t) is not T:
            return z3.BitVecVal(t, w) if w != 1 else z3.BoolVal(bool(t))
        if t in self.memo:
            return self.memo[t]
        memo = self.memo
        for x in topo_memo([t], memo):
            memo[x] = self._tr(x)
        return memo[t]

    def func(self, name, ws, w):
        k = (name, ws, w)
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function('%s/%d' % (name, len(self.funcs)), *([z3.BitVecSort(i) if i > 1 else z3.BoolSort() for i in ws] + [z3.BitVecSort(w) if w > 1 else z3.BoolSort()]))
            self.funcs[k] = f
        return f

    def _tr(self, x):
        memo = self.memo
        op = x.op
        a = x.args
        w = x.w

        def g(v, vw):
            if type(v) is T:
                return memo[v]
            return z3.BitVecVal(v, vw) if vw != 1 else z3.BoolVal(bool(v))

        def b2(v):       # bool -> 1 bit vector
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'var':
            return z3.BitVec(a[0], w) if w > 1 else z3.Bool(a[0])
        if op == 'const':
            return z3.BitVecVal(a[0], w) if w > 1 else z3.BoolVal(bool(a[0]))
        if op == 'lin':
            its = a[1]
            r = None
            m = mask(w)
            negs = []
            for i in range(0, len(its), 2):
                k = its[i + 1]
                if k >> (w - 1):
                    negs.append((its[i], (-k) & m))
                    continue
                y = memo[its[i]]
                if k != 1:
                    y = y * z3.BitVecVal(k, w)
                r = y if r is None else r + y
            if a[0]:
                y = z3.BitVecVal(a[0], w)
                r = y if r is None else r + y
            if r is None:
                r = z3.BitVecVal(0, w)
            for t, k in negs:
                y = memo[t]
                if k != 1:
                    y = y * z3.BitVecVal(k, w)
                r = r - y
            return r
        if op == 'add':
            return g(a[0], w) + g(a[1], w)
        if op == 'xor':
            if w == 1:
                r = None
                for y in a[1]:
                    r = memo[y] if r is None else z3.Xor(r, memo[y])
                return z3.Not(r) if a[0] else r
            r = None
            for y in a[1]:
                r = memo[y] if r is None else r ^ memo[y]
            if a[0]:
                r = r ^ z3.BitVecVal(a[0], w)
            return r
        if op == 'cat':
            ps = []
            for p in reversed(a):
                y = memo[p]
                if p.w == 1:
                    y = b2(y)
                ps.append(y)
            return z3.Concat(*ps)
        if op == 'ext':
            y = memo[a[0]]
            r = z3.Extract(a[1] + w - 1, a[1], y)
            return r == 1 if w == 1 else r
        if op == 'sext':
            y = memo[a[0]]
            if a[0].w == 1:
                y = b2(y)
            return z3.SignExt(w - a[0].w, y)
        if op == 'ite':
            return z3.If(memo[a[0]], g(a[1], w), g(a[2], w))
        if op == 'not':
            return z3.Not(memo[a[0]])
        if op == 'and':
            return z3.And(*[memo[y] for y in a])
        if op == 'or':
            return z3.Or(*[memo[y] for y in a])
        if op in ('eq', 'ult', 'slt'):
            cw = a[0].w if type(a[0]) is T else a[1].w
            p, q = g(a[0], cw), g(a[1], cw)
            if op == 'eq':
                return p == q
            return z3.ULT(p, q) if op == 'ult' else p < q
        if op == 'band':
            return g(a[0], w) & g(a[1], w)
        if op == 'bor':
            return g(a[0], w) | g(a[1], w)
        if op == 'mul':
            return g(a[0], w) * g(a[1], w)
        if op == 'udiv':
            return z3.UDiv(g(a[0], w), g(a[1], w))
        if op == 'urem':
            return z3.URem(g(a[0], w), g(a[1], w))
        if op == 'shl':
            return g(a[0], w) << g(a[1], w)
        if op == 'lshr':
            return z3.LShR(g(a[0], w), g(a[1], w))
        if op == 'ashr':
            return g(a[0], w) >> g(a[1], w)
        if op == 'sel':
            return self.func('@' + a[0], (64,), 8)(g(a[1], 64))
        if op == 'uf':
            ws = tuple(vw for _, vw in a[1])
            return self.func('$' + a[0], ws, w)(*[g(v, vw) for v, vw in a[1]])
        raise Exception('z3 ' + op)

    # ------------------------------------------------------------ solving
    def relevant(self, conds, goal):
        """the conditions that share inputs (transitively) with the goal"""
        need = set(tm.leaves(goal))
        left = [(c, tm.leaves(c)) for c in conds if type(c) is T]
        out = []
        change = True
        while change:
            change = False
            rest = []
            for c, l in left:
                if need.isdisjoint(l):
                    rest.append((c, l))
                else:
                    out.append(c)
                    need |= l
                    change = True
            left = rest
        return out, need

    def near(self, conds, goal, step=4):
        """those of the conditions that add few inputs at a time, starting from the goal's"""
        need = set(tm.leaves(goal))
        left = [(c, tm.leaves(c)) for c in conds]
        out = []
        change = True
        while change:
            change = False
            rest = []
            for c, l in left:
                if not need.isdisjoint(l) and len(l - need) <= step:
                    out.append(c)
                    need |= l
                    change = True
                else:
                    rest.append((c, l))
            left = rest
        return out

    def quick(self, conds, goal):
        """True if a few of the conditions refute the goal"""
        cs = [c for c in conds if type(c) is T]
        r, need = self.relevant(cs, goal)
        if len(need) > 24:
            r = self.near(r, goal)
        return self.check(r + [goal], False, 1500)[0] == 'unsat'

    def check(self, conds, want_model=False, timeout=None, minimize=(), goal=None, base=None):
        """-> ('sat', Env) / ('unsat', None) / ('unknown', None).  conds: boolean terms or ints.
        With `goal`, conds are known to be satisfiable (by `base` if given) and only those that
        share inputs with the goal are used."""
        cs = []
        for c in conds:
            if type(c) is not T:
                if not c:
                    return 'unsat', None
                continue
            cs.append(c)
        need = None
        if goal is not None:
            if type(goal) is not T:
                if not goal:
                    return 'unsat', None
            elif base is not None or not want_model:
                cs, need = self.relevant(cs, goal)
                if len(need) > 24:
                    few = self.near(cs, goal)
                    if len(few) < len(cs):
                        r, _ = self.check(few + [goal])
                        if r == 'unsat':
                            return r, None
                cs.append(goal)
            else:
                cs.append(goal)
        key = frozenset(c.id for c in cs)
        hit = self.cache.get(key)
        if hit is not None and not minimize and (not want_model or hit[0] != 'sat' or hit[1] is not None):
            self.cachehits += 1
            r, env = hit
        else:
            t0 = time.time()
            r, env = self.solve(cs, want_model, timeout or self.timeout, minimize)
            dt = time.time() - t0
            self.queries += 1
            self.time += dt
            self.maxq = max(self.maxq, dt)
            if r == 'sat':
                self.sat += 1
            elif r == 'unsat':
                self.unsat += 1
            else:
                self.unknown += 1
            if r != 'unknown':
                self.cache[key] = (r, env)
        if r == 'sat' and want_model:
            if need is not None and base is not None:
                env = self.combine(base, env, need)
            else:
                env = env.copy()
            return r, env
        return r, None

    def combine(self, base, env, need):
        """base outside the inputs `need`, env on them"""
        r = base.copy()
        for k in list(r.vars):
            if k in need:
                del r.vars[k]
        for k in list(r.sels):
            if '@' + k[0] in need:
                del r.sels[k]
        for k in list(r.ufs):
            if '$' + k[0] in need:
                del r.ufs[k]
        for k, v in env.vars.items():
            if k in need:
                r.vars[k] = v
        for k, v in env.sels.items():
            if '@' + k[0] in need:
                r.sels[k] = v
        for k, v in env.ufs.items():
            if '$' + k[0] in need:
                r.ufs[k] = v
        r.memo = {}
        return r

    def solve(self, cs, want_model, timeout, minimize):
        try:
            exprs = [self.lia.tr(c)[0] for c in cs]
            sides = self.lia.sides(cs)
        except NotLinear:
            exprs = None
        if exprs is not None:
            self.lin += 1
            s = z3.SimpleSolver()
            s.set('timeout', int(min(timeout, 15000)))
            s.add(*sides)
            s.add(*exprs)
            r = str(s.check())
            if r == 'unsat':
                return r, None
            if r == 'sat':
                if not want_model:
                    return r, None
                m = s.model()
                m = self.shrink(s, m, minimize, lambda v: self.lia.tr(v)[0], lambda v, k: v <= k)
                env = self.model_env(m, cs, self.lia.funcs, lambda x: self.lia.tr(x)[0])
                if all(env.val(c) for c in cs):
                    return r, env
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', int(timeout))
        for c in cs:
            s.add(self.z(c))
        r = str(s.check())
        env = None
        if r == 'sat' and want_model:
            m = s.model()
            m = self.shrink(s, m, minimize, self.z, lambda v, k: z3.ULE(v, k))
            env = self.model_env(m, cs, self.funcs, self.z)
        if r == 'unknown':
            self.note_unknown(cs)
        return r, env

    dump = None

    def note_unknown(self, cs):
        if self.dump:
            s = z3.Solver()
            for c in cs:
                s.add(self.z(c))
            open('%s/unknown_%d.smt2' % (self.dump, self.queries), 'w').write(s.to_smt2())

    def shrink(self, s, m, minimize, tr, le):
        for v in minimize:
            zv = tr(v)
            for k in (0, 1, 2, 8, 16, 33, 65, 130, 260, 600, 1100, 2200, 5000, 70000, 1 << 20, 1 << 26, 1 << 32, (1 << 32) + 4096):
                s.push()
                s.add(le(zv, k))
                if str(s.check()) == 'sat':
                    m = s.model()
                    break
                s.pop()
        return m

    def model_env(self, m, cs, funcs, z):
        env = Env()
        names = {}
        for (name, ws, w), f in funcs.items():
            names[f.name()] = (name, ws, w)
        for d in m.decls():
            n = d.name()
            if n in names or '~' in n:
                continue
            if d.arity() == 0:
                env.vars[n] = _num(m[d])
        # applications that z3 left to the else value: evaluate them in the model
        # (only those the conditions mention)
        memo = {}
        for x in topo_memo(cs, memo):
            if x.op == 'sel':
                i = evaluate([x.args[1]], env)[0]
                k = (x.args[0], i)
                if k not in env.sels:
                    env.sels[k] = _num(m.eval(z(x), model_completion=True))
            elif x.op == 'uf':
                k = (x.args[0], tuple(evaluate([v], env)[0] if type(v) is T else v for v, _ in x.args[1]))
                if k not in env.ufs:
                    env.ufs[k] = _num(m.eval(z(x), model_completion=True))
            elif x.op == 'var' and x.args[0] not in env.vars:
                env.vars[x.args[0]] = _num(m.eval(z(x), model_completion=True))
        env.memo = {}
        return env


def _num(v):
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v.as_long()
