"""Equality of two word-level circuits: the solver merges equal inner nodes bottom-up.

Both circuits are terms over the same inputs.  Nodes that agree on random inputs are candidates; each
candidate pair is shown equal by the solver over fresh variables standing for already merged nodes
(sound: the nodes are then equal for all values of those), or, when that abstraction is too weak, over
their whole cones.  Sampling only proposes pairs; equality is always the solver's verdict.
"""
import time
import z3
import terms as tm
from terms import T
from smt import Env


class Diff(Exception):
    def __init__(self, i, env):
        self.i = i
        self.env = env


class Sweep(object):
    def __init__(self, smt, pc=(), nsim=4, seeds=(), log=None, timeout=20000):
        self.smt = smt
        self.pc = [c for c in pc if type(c) is T]
        self.log = log or (lambda s: None)
        self.timeout = timeout
        self.rep = {}
        self.table = {}
        self.sig = {}
        self.proved = 0
        self.failed = 0
        self.deeper = 0
        self.envs = []
        base = None
        need = set()
        if self.pc:
            r, base = smt.check(self.pc, True)
            if r != 'sat':
                raise Exception('path condition not satisfiable')
            for c in self.pc:
                need |= tm.leaves(c)
        for k in range(nsim):
            e = Env(seed=k + 1)
            if base is not None:
                e = smt.combine(e, base, need)
                e.seed = k + 1
            self.envs.append(e)

    def add_env(self, env):
        e = Env(dict(env.vars), dict(env.sels), dict(env.ufs), env.seed)
        self.envs.append(e)

    def sigof(self, x):
        return tuple(e.val(x) for e in self.envs)

    def reduce(self, roots):
        """representatives of the nodes of a circuit"""
        rep = self.rep
        for x in tm.topo_memo(roots, rep):
            y = tm.rebuild(x, lambda c: rep[c] if type(c) is T else c)
            if type(y) is not T:
                rep[x] = y
                continue
            if y is not x and y in rep:
                rep[x] = rep[y]
                continue
            s = self.sigof(y)
            k = (y.w, s)
            c = self.table.get(k)
            if c is None:
                if len(set(s)) == 1 and y.w > 1 and len(s) > 1 and self.same(y, s[0]):
                    rep[x] = rep[y] = s[0]
                    continue
                self.table[k] = [y]
                rep[x] = y
                rep[y] = y
                continue
            for z in c:
                if z is y or self.same(y, z):
                    rep[x] = z
                    rep[y] = z
                    break
            else:
                if len(c) < 3:
                    c.append(y)
                rep[x] = y
                rep[y] = y
        return [rep[r] if type(r) is T else r for r in roots]

    def same(self, a, b):
        w = a.w
        for depth in (3, 6, 12):
            g, cut, full = self.cut(a, b, depth)
            r = self.query(g, w, None if not full else self.timeout)
            if r == 'unsat':
                self.proved += 1
                return True
            if full:
                break
            self.deeper += 1
        self.failed += 1
        return False

    def cut(self, a, b, depth):
        """-> (a', b'), with nodes below `depth` replaced by variables"""
        fr = {}
        lv = {}
        front = [x for x in (a, b) if type(x) is T]
        seen = set(front)
        full = True
        inner = []
        for d in range(depth):
            nxt = []
            for x in front:
                inner.append(x)
                for c in tm.children(x):
                    if c not in seen:
                        seen.add(c)
                        nxt.append(c)
            front = nxt
        for x in front:
            if x.op not in ('var', 'const'):
                full = False
                fr[x] = tm.var('cut!%d' % x.id, x.w)
        if full:
            return (a, b), None, True
        m = dict(fr)
        f = lambda t: tm.subst(t, m) if type(t) is T else t
        return (f(a), f(b)), fr, False

    def query(self, g, w, timeout=None):
        a, b = g
        smt = self.smt
        t0 = time.time()
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', int(timeout or 2000))
        for c in self.pc:
            s.add(smt.z(c))
        s.add(smt.z(a, w) != smt.z(b, w))
        r = str(s.check())
        self.model = s
        dt = time.time() - t0
        smt.queries += 1
        smt.time += dt
        smt.maxq = max(smt.maxq, dt)
        if r == 'unsat':
            smt.unsat += 1
        elif r == 'sat':
            smt.sat += 1
        else:
            smt.unknown += 1
        return r

    def equal(self, got, want, ws):
        """-> None, or raises Diff"""
        self.reduce([x for x in want if type(x) is T])
        self.reduce([x for x in got if type(x) is T])
        bad = []
        for i, (x, y) in enumerate(zip(got, want)):
            p = self.rep.get(x, x) if type(x) is T else x
            q = self.rep.get(y, y) if type(y) is T else y
            if p is q or (type(p) is not T and type(q) is not T and p == q):
                continue
            bad.append(i)
        if not bad:
            return []
        for i in bad:
            for e in self.envs:
                if e.val(got[i]) != e.val(want[i]):
                    raise Diff(i, e)
        # equal on the samples: steer into every condition of the circuit
        self.steer([got[i] for i in bad], bad, got, want)
        return bad

    def steer(self, roots, bad, got, want):
        conds = [x for x in tm.topo(roots) if x.op == 'ite']
        done = set()
        for x in conds[:200]:
            for c in (x.args[0], tm.not_(x.args[0])):
                if type(c) is not T or c in done:
                    continue
                done.add(c)
                r, env = self.smt.check(self.pc + [c], True, timeout=5000)
                if r != 'sat':
                    continue
                for i in bad:
                    if env.val(got[i]) != env.val(want[i]):
                        raise Diff(i, env)
        for i in bad:
            r, env = self.smt.check(self.pc + [tm.ne(got[i], want[i], 32)], True, timeout=20000)
            if r == 'sat' and env.val(got[i]) != env.val(want[i]):
                raise Diff(i, env)
