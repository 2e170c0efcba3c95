"""Scenarios: sequences of harness calls executed symbolically, and recorded for native replay."""
import time
import terms as tm
from terms import T, eq, ule, ult, add, sub, mask
import interp as I
import stream as S

ALIGN = {'Params': 0, 'State': 1, 'Hash': 2, 'SpParams': 3, 'SpState': 4}


class Scenario(object):
    def __init__(self, prog, name, log=None, hook=True, unroll=150, induct=True, merge=True, checks=False):
        self.prog = prog
        self.name = name
        self.e = I.Engine(prog, log)
        self.e.unroll = unroll
        self.e.allow_induct = induct
        self.e.merge_off = not merge
        self.e.check_features = checks
        self.layer = S.Layer(self.e)
        self.hooked = S.install(self.e, self.layer, prog) if hook else {}
        st = I.State()
        self.objs = {}
        self.trace = []
        self.arrays = {}
        self.min = []
        self.e_feats(st)
        self.sts = [(st, {})]
        self.sizes()
        self.problems = []
        self.t0 = time.time()

    # ------------------------------------------------------------ set-up
    def e_feats(self, st):
        """learn which detection bit belongs to which feature"""
        bits = {}
        for f in ('sse2', 'sse3', 'ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'bmi1', 'bmi2', 'avx512f', 'avx512vl', 'popcnt', 'fma'):
            fn = '@h_feat_' + f.replace('.', '_')
            if self.prog.find(fn) is None:
                continue
            seen = []

            def grab(bit):
                seen.append(bit)
            e2 = I.Engine(self.prog)
            e2.featprobe = seen
            s = I.State()
            try:
                e2.run(fn, s, [])
            except I.Unsupported:
                continue
            if len(seen) == 1:
                bits[seen[0]] = f
        self.e.featbits = bits

    def sizes(self):
        st, _ = self.sts[0]
        oid = self.e.new_obj(st, 80, 8, 'sizes')
        r = self.e.run('@h_sizes', st, [I.Ptr(oid, 0)])
        s = r[0][0]
        v = self.e.load(s, I.Ptr(oid, 0), ('a', 10, ('i', 64)), 8).e
        s.mem.pop(oid, None)
        self.size = {k: v[i] for k, i in ALIGN.items()}
        self.align = {k: v[5 + i] for k, i in ALIGN.items()}
        self.sts = [(s, {})]
        self.e.funcs_run.clear()

    def assume(self, *conds):
        out = []
        for st, vals in self.sts:
            for c in conds:
                c = self.e.norm(st, c) if type(c) is T else c
                if type(c) is not T:
                    if not c:
                        st = None
                        break
                    continue
                r, m = self.e.smt.check(list(st.pc) + [c], want_model=True)
                if r == 'unsat':
                    st = None
                    break
                self.e.assume(st, c, m)
            if st is not None:
                out.append((st, vals))
        self.sts = out

    def length(self, name, lo=0, hi=1 << 56):
        v = tm.var(name, 64)
        tm.BOUNDS[name] = hi
        if lo:
            self.assume(ule(lo, v, 64))
        self.assume(ule(v, hi, 64))
        self.min.append(v)
        return v

    def obj(self, name, kind, n=1):
        """an uninitialised object of n x kind, present in all states"""
        sz, al = (self.size[kind], self.align[kind]) if kind in self.size else kind
        oid = None
        for st, _ in self.sts:
            if oid is None:
                oid = self.e.new_obj(st, sz * n, al, name, 'heap')
            else:
                o = I.Obj(sz * n, al, (oid << 36) + min(al, 64), name, 'heap')
                o.data = [None] * (sz * n)
                o.owner = st.tok
                st.mem[oid] = o
        self.objs[oid] = dict(name=name, size=sz * n, align=al)
        return I.Ptr(oid, 0)

    def arr(self, name, size):
        """a read-only input of symbolic size at an address of arbitrary alignment"""
        oid = None
        for st, _ in self.sts:
            if oid is None:
                oid = self.e.input_array(st, name, size)
            else:
                st.mem[oid] = self.sts[0][0].mem[oid]
        self.arrays[name] = size
        self.objs[oid] = dict(name=name, arr=name)
        return I.Ptr(oid, 0)

    def data(self, name, values, w=64, align=32):
        """an initialised object holding words of w bits or pointers"""
        n = w // 8
        oid = None
        es = []
        for v in values:
            es += self.e.to_entries(v, ('i', w))
        for st, _ in self.sts:
            if oid is None:
                oid = self.e.buffer(st, es, align, name, 'heap')
            else:
                o = I.Obj(len(es), align, (oid << 36) + align, name, 'heap')
                o.data = list(es)
                st.mem[oid] = o
        self.objs[oid] = dict(name=name, size=len(es), align=align, values=list(values), w=w)
        return I.Ptr(oid, 0)

    def prog_names(self):
        if self._names is None:
            self._names = self.prog.names()
        return self._names

    _names = None

    # ------------------------------------------------------------ calls
    def call(self, fn, *args, **kw):
        """run a harness function in every state; ret=name keeps the result"""
        ret = kw.get('ret')
        rt = self.prog.find('@' + fn).ret
        args2 = [self.arg(a) for a in args]
        self.trace.append((fn, args2, ret))
        out = []
        for st, vals in self.sts:
            av = [self.resolve(a, vals) for a in args2]
            for s, v in self.e.run('@' + fn, st, av):
                vs = vals
                if ret:
                    vs = dict(vals)
                    if v is I.UNDEF:
                        self.e.fault(s, 'ub', 'undefined result')
                        continue
                    vs[ret] = v
                out.append((s, vs))
        self.sts = out
        if kw.get('merge', True) and not self.e.merge_off:
            self.merge()

    def arg(self, a):
        return a

    def resolve(self, a, vals):
        if type(a) is str:
            return vals[a]
        if type(a) is bool:
            return 1 if a else 0
        return a

    def merge(self):
        out = []
        for st, vals in self.sts:
            for i, (s2, v2) in enumerate(out):
                keys = sorted(set(vals) | set(v2))
                if set(vals) != set(v2):
                    continue
                vv = []
                bad = False
                for k in keys:
                    a, b = v2[k], vals[k]
                    w = a.w if type(a) is T else b.w if type(b) is T else 64
                    vv.append((a, b, ('i', w)))
                try:
                    m = self.e.merge(s2, st, vv)
                except I.Unsupported:
                    m = None
                if m is not None:
                    out[i] = (m[0], dict(zip(keys, m[1])))
                    break
            else:
                out.append((st, vals))
        self.sts = out

    # ------------------------------------------------------------ results
    def bytes(self, st, p, n):
        v = self.e.load(st, p, ('a', n, ('i', 8)), 1)
        return [None if x is I.UNDEF else x for x in v.e]

    def hash_of(self, st, hptr):
        """(length, function of k giving byte k) of a Hash object in a state, via as_bytes()"""
        r = self.e.run('@h_h_len', st, [hptr])
        assert len(r) == 1, 'as_bytes().len() forks'
        st, ln = r[0]
        r = self.e.run('@h_h_ptr', st, [hptr])
        st, p = r[0]
        return st, ln, p
