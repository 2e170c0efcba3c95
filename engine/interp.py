"""Symbolic executor for the LLVM IR of the crate under test.

Every function is executed from the IR generated from /repo's current source.
Branch feasibility, bounds and merges are decided by the solver over symbolic
inputs; states are merged at joins, and loops whose trip count is symbolic are
summarised by an induction that the solver has to close (else unrolled up to a
reported bound).
"""
import re
import time
import terms as tm
from terms import T, mask, add, sub, mul, eq, ult, ule, ite, ext, cat, and_, or_, not_, const, sel
from llir import Const, Unsupported, sizeof, alignof, field_off
from smt import Smt, Env


class Ptr(object):
    __slots__ = ('obj', 'off', '_h')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return type(o) is Ptr and o.obj == self.obj and (o.off is self.off or (type(o.off) is not T and type(self.off) is not T and o.off == self.off))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, tm.show(self.off, 3))


class Fn(object):
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PIte(object):
    """choice between values that are not bit-vectors (pointers, functions)"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __eq__(self, o):
        return type(o) is PIte and o.c is self.c and o.a == self.a and o.b == self.b

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class Vec(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Vec%r' % (self.e,)


class Agg(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class _Undef(object):
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """the current path ends here (a panic, or an infeasible state)"""


class Obj(object):
    __slots__ = ('size', 'align', 'base', 'name', 'data', 'arr', 'arrlen', 'owner', 'ro', 'kind', 'secret')

    def __init__(self, size, align, base, name, kind):
        self.size = size
        self.align = align
        self.base = base
        self.name = name
        self.kind = kind
        self.data = None
        self.arr = None
        self.owner = 0
        self.ro = False
        self.secret = False

    def clone(self):
        o = Obj(self.size, self.align, self.base, self.name, self.kind)
        o.data = list(self.data) if self.data is not None else None
        o.arr = self.arr
        o.ro = self.ro
        return o


_tok = [1]


class State(object):
    __slots__ = ('mem', 'pc', 'facts', 'models', 'tok', 'log', 'events', 'out')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.facts = {}
        self.models = []
        _tok[0] += 1
        self.tok = _tok[0]
        self.log = ()
        self.events = ()
        self.out = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.facts = dict(self.facts)
        s.models = list(self.models)
        s.log = self.log
        s.events = self.events
        s.out = self.out
        _tok[0] += 2
        s.tok = _tok[0]
        self.tok = _tok[0] - 1
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.tok:
            o = o.clone()
            o.owner = self.tok
            self.mem[oid] = o
        return o


class Incomplete(Exception):
    """the analysis could not decide something"""


def entry_byte(e):
    """memory entry -> byte value (int or T); pointers -> None"""
    if type(e) is int:
        return e
    if e is None:
        return None
    v, k = e
    if type(v) is T:
        if v.op == 'const':
            return (v.args[0] >> (8 * k)) & 255
        return ext(v, 8 * k, 8)
    return None


class Engine(object):
    def __init__(self, prog, log=None):
        self.prog = prog
        self.ident = object()   # constants are cached per engine
        self.smt = Smt()
        self.objn = 0
        self.inputs = []
        self.globs = {}        # (mod name, global) -> oid
        self.global_objs = {}  # oid -> Obj (initial)
        self.hooks = {}        # symbol -> handler(engine, state, args, ins, fn) -> [(state, val)]
        self.hints = []        # (what, pc): where an induction failed to close
        self.must_close = False
        self.panics = []       # (kind, reason, pc, model, stack)
        self.stack = []
        self.featbits = {}     # bit -> name
        self.features_seen = {}
        self.bounded = {}      # loops cut at a bound
        self.inducted = {}
        self.funcs_run = {}
        self.secret_pred = None
        self.secret_events = []
        self.instrs = 0
        self.blocks = 0
        self.unroll = 150
        self.allow_induct = True
        self.base_feats = set(['sse', 'sse2', 'fxsr', 'x87', 'mmx', 'cx8'])
        self.p15 = []
        self.depth = 0
        self.log = log
        self.deadline = None
        self.lift = None       # hook: lift(engine, state) at symbolic loop arrivals
        self.nb = 0
        self.check_features = False
        self.fmt_hook = None
        self.merge_off = False
        self.featprobe = None

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, align, name, kind='stack', base=None):
        self.objn += 1
        oid = self.objn
        if base is None:
            # aligned to exactly `align`
            base = (oid << 36) + (align if align < 64 else 64)
        o = Obj(size, align, base, name, kind)
        if type(size) is not T:
            o.data = [None] * size
        o.owner = st.tok if st is not None else 0
        if st is not None:
            st.mem[oid] = o
        return oid

    def input_array(self, st, arr, size, align=1, low=None):
        """a read-only input object of symbolic size backed by the array `arr`"""
        self.objn += 1
        oid = self.objn
        if low is None:
            low = tm.var('addr:' + arr, 6)
        # inputs may be as long as 2^57 - 2^8 bytes: they get their own address range
        self.inputs.append(oid)
        if len(self.inputs) > 60:
            raise Unsupported('too many input arrays')
        base = cat([(low, 6), (((64 + len(self.inputs)) << 57) >> 6, 58)])
        o = Obj(size, align, base, arr, 'input')
        o.arr = arr
        o.ro = True
        o.owner = st.tok
        st.mem[oid] = o
        return oid

    def buffer(self, st, data, align, name, kind='stack'):
        oid = self.new_obj(st, len(data), align, name, kind)
        st.mem[oid].data = list(data)
        return oid

    def addr(self, st, p):
        """pointer -> 64-bit value"""
        if type(p) is Ptr:
            return add(st.mem[p.obj].base if p.obj in st.mem else self.gobj(p.obj).base, p.off, 64)
        if type(p) is Fn:
            return self.fn_addr(p)
        if type(p) is PIte:
            return ite(p.c, self.addr(st, p.a), self.addr(st, p.b), 64)
        return p

    _fnaddr = {}

    def fn_addr(self, f):
        a = self._fnaddr.get(f.name)
        if a is None:
            a = (1 << 60) + 16 * (len(self._fnaddr) + 1)
            self._fnaddr[f.name] = a
        return a

    def gobj(self, oid):
        return self.global_objs[oid]

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.global_objs.get(oid)
            if o is None:
                self.fault(st, 'ub', 'use of a dead object')
                raise Dead()
        return o

    def oid_at(self, a):
        if a >> 63:
            i = (a >> 57) - 65
            return self.inputs[i] if 0 <= i < len(self.inputs) else 0
        return a >> 36

    def resolve_int_ptr(self, st, v):
        """an integer used as an address: find the object"""
        if type(v) is not T:
            oid = self.oid_at(v)
            o = st.mem.get(oid) or self.global_objs.get(oid)
            if o is not None and type(o.base) is not T:
                return Ptr(oid, (v - o.base) & mask(64))
            return None
        # symbolic: constant part selects the object
        c = None
        if v.op == 'lin':
            c = v.args[0]
        if c:
            oid = self.oid_at(c)
            o = st.mem.get(oid) or self.global_objs.get(oid)
            if o is not None:
                return Ptr(oid, sub(v, o.base, 64))
        for oid, o in st.mem.items():
            if o.arr and type(o.base) is T:
                d = sub(v, o.base, 64)
                if o.base not in tm.topo([d]) if type(d) is T else True:
                    return Ptr(oid, d)
        return None

    def deref(self, st, p):
        p = self.norm(st, p)
        if type(p) is Ptr:
            return p
        if type(p) is PIte:
            raise Fork(p.c)
        if p is UNDEF:
            self.fault(st, 'ub', 'dereference of an undefined pointer')
            raise Dead()
        if type(p) is Fn:
            raise Unsupported('load from function')
        q = self.resolve_int_ptr(st, p)
        if q is None:
            if type(p) is not T:
                self.fault(st, 'ub', 'invalid address %x' % p)
                raise Dead()
            raise Unsupported('address %s' % tm.show(p, 3))
        return q

    def norm(self, st, v):
        """resolve top-level choices that the path already decided"""
        f = st.facts
        while True:
            if type(v) is T:
                if v.op == 'ite':
                    r = f.get(v.args[0])
                    if r is not None:
                        v = v.args[1] if r else v.args[2]
                        continue
                elif v.w == 1:
                    r = f.get(v)
                    if r is not None:
                        return 1 if r else 0
                    if v.op == 'not':
                        r = f.get(v.args[0])
                        if r is not None:
                            return 0 if r else 1
                    elif v.op in ('and', 'or'):
                        z = 0 if v.op == 'and' else 1
                        rest = []
                        ch = False
                        for y in v.args:
                            r = self.norm(st, y)
                            if type(r) is not T:
                                if r == z:
                                    return z
                                ch = True
                                continue
                            if r is not y:
                                ch = True
                            rest.append(r)
                        if ch:
                            return tm.conj(rest) if z == 0 else tm.disj(rest)
                return v
            if type(v) is PIte:
                r = self.norm(st, v.c)
                if type(r) is not T:
                    v = v.a if r else v.b
                    continue
                return v
            return v

    # byte lists ------------------------------------------------------
    def to_entries(self, v, t):
        """value of type t -> list of memory entries"""
        n = sizeof(t)
        k = t[0]
        if v is UNDEF:
            return [None] * n
        if k in ('i', 'f', 'p'):
            if type(v) is int:
                if n == 1:
                    return [v & 255]
                c = const(v, 8 * n)
                return [(c, i) for i in range(n)]
            if type(v) is T:
                if v.w < 8 * n:
                    v = tm.zext(v, v.w, 8 * n)
                    if type(v) is int:
                        return self.to_entries(v, t)
                if v.op == 'cat' and n > 1:
                    return self.split_cat(v)
                return [(v, i) for i in range(n)]
            return [(v, i) for i in range(n)]
        if k == 'v' or k == 'a':
            if type(v) is T or type(v) is int:
                return self.to_entries(v, ('i', 8 * n))
            r = []
            for x in v.e:
                r += self.to_entries(x, t[2])
            return r
        if k == 's':
            r = []
            for i, ft in enumerate(t[1]):
                o = field_off(t, i)
                r += [None] * (o - len(r))
                r += self.to_entries(v.e[i], ft)
            return r + [None] * (n - len(r))
        raise Unsupported('store type %r' % (t,))

    def split_cat(self, v):
        """keep byte-aligned pieces of a concatenation as separate words"""
        ok = all(p.w % 8 == 0 for p in v.args)
        if not ok:
            return [(v, i) for i in range(v.w // 8)]
        if len(v.args) == 2 and v.args[1].op == 'const':
            return [(v, i) for i in range(v.w // 8)]
        r = []
        for p in v.args:
            if p.op == 'const' and p.w == 8:
                r.append(p.args[0])
            else:
                r += [(p, i) for i in range(p.w // 8)]
        return r

    def from_entries(self, es, t):
        k = t[0]
        if k == 'v' or k == 'a':
            n = sizeof(t[2])
            return (Vec if k == 'v' else Agg)([self.from_entries(es[i * n:(i + 1) * n], t[2]) for i in range(t[1])])
        if k == 's':
            r = []
            for i, ft in enumerate(t[1]):
                o = field_off(t, i)
                r.append(self.from_entries(es[o:o + sizeof(ft)], ft))
            return Agg(r)
        w = t[1] if k in ('i', 'f') else 64
        return self.scalar(es, w)

    def scalar(self, es, w):
        e = es[0]
        n = len(es)
        if type(e) is tuple:
            v, k0 = e
            if k0 == 0:
                if type(v) is T:
                    if v.w == 8 * n:
                        for i in range(1, n):
                            x = es[i]
                            if type(x) is not tuple or x[0] is not v or x[1] != i:
                                break
                        else:
                            v = v.args[0] if v.op == 'const' else v
                            return v if w == 8 * n else tm.trunc(v, w)
                elif n == 8:
                    for i in range(1, 8):
                        x = es[i]
                        if type(x) is not tuple or x[1] != i or x[0] != v:
                            break
                    else:
                        return v
        if all(type(x) is int for x in es):
            r = int.from_bytes(bytes(es), 'little')
            return r & mask(w)
        pieces = []
        for x in es:
            if x is None:
                return UNDEF if all(y is None for y in es) else self._mixed(es, w)
            b = entry_byte(x)
            if b is None:
                return self._ptr_bytes(es, w)
            pieces.append((b, 8))
        r = cat(pieces)
        if w != 8 * n:
            r = tm.trunc(r, w)
        return r

    def _mixed(self, es, w):
        pieces = []
        for x in es:
            b = 0 if x is None else entry_byte(x)
            if b is None:
                return self._ptr_bytes(es, w)
            pieces.append((b, 8))
        return tm.trunc(cat(pieces), w)

    def _ptr_bytes(self, es, w):
        raise Unsupported('partial pointer load')

    # bounds ----------------------------------------------------------
    def in_bounds(self, st, o, off, n):
        """prove [off, off+n) within o; record a violation if not"""
        size = o.size
        if type(off) is not T and type(n) is not T and type(size) is not T:
            if off + n <= size:
                return
            self.fault(st, 'oob', 'access at %d..%d of %s[%d]' % (off if off < 1 << 63 else off - (1 << 64), off + n, o.name, size))
            raise Dead()
        # off <= size and n <= size - off
        ok = and_(ule(off, size, 64), ule(n, sub(size, off, 64), 64), 1)
        self.require(st, ok, 'oob', 'access to %s out of bounds' % o.name)

    def require(self, st, cond, kind, why):
        """cond must hold on this path, else a fault is recorded; continues under cond"""
        c = self.norm(st, cond)
        if type(c) is not T:
            if c:
                return
            self.fault(st, kind, why)
            raise Dead()
        t, f = self.feasible(st, c)
        if f is not None:
            s2 = st.copy()
            self.assume(s2, not_(c), f)
            self.fault(s2, kind, why)
            if t is None:
                raise Dead()
            self.assume(st, c, t)

    def align_ok(self, st, o, off, al):
        if al <= 1:
            return
        a = add(o.base, off, 64)
        if type(a) is not T:
            if a % al:
                self.fault(st, 'ub', 'misaligned access to %s (align %d)' % (o.name, al))
                raise Dead()
            return
        low = ext(a, 0, al.bit_length() - 1)
        if type(low) is not T and low == 0:
            return
        self.require(st, eq(low, 0, al.bit_length() - 1), 'ub', 'misaligned access to %s (align %d)' % (o.name, al))

    def load(self, st, p, t, al):
        p = self.deref(st, p)
        o = self.getobj(st, p.obj)
        n = sizeof(t)
        off = self.norm(st, p.off)
        self.in_bounds(st, o, off, n)
        self.align_ok(st, o, off, al)
        if o.arr is not None:
            return self.from_entries(self.arr_bytes(o, off, n), t)
        if type(off) is T:
            off = self.concretize(st, off)
        if type(off) is not T:
            return self.from_entries(o.data[off:off + n], t)
        self.note_addr(st, off)
        # symbolic offset: choose among all positions
        return self.sel_load(st, o, off, n, t)

    def arr_bytes(self, o, off, n):
        r = []
        for i in range(n):
            b = sel(o.arr, add(off, i, 64))
            r.append((b, 0))
        return r

    def candidates(self, st, o, off, n):
        if type(o.size) is T or o.size > 4096:
            raise Unsupported('symbolic offset into %s' % o.name)
        step = 1
        if type(off) is T:
            # alignment known from the structure
            if off.op == 'cat' and off.args[0].op == 'const' and off.args[0].args[0] == 0:
                step = 1 << off.args[0].w
                return range(0, o.size - n + 1, step)
            if off.op == 'lin':
                g = 64
                for kk in off.args[1][1::2]:
                    g = min(g, (kk & -kk).bit_length() - 1)
                step = 1 << g
                start = off.args[0] % step
                return range(start, o.size - n + 1, step)
        return range(0, o.size - n + 1, step)

    def sel_load(self, st, o, off, n, t):
        if t[0] not in ('i', 'f', 'p'):
            es = []
            cands = list(self.candidates(st, o, off, n))
            conds = [eq(off, c, 64) for c in cands]
            for i in range(n):
                v = None
                for c, cd in zip(cands, conds):
                    b = entry_byte(o.data[c + i])
                    if b is None:
                        b = 0
                    v = b if v is None else ite(cd, b, v, 8)
                es.append(v if type(v) is int else (v, 0))
            return self.from_entries(es, t)
        r = None
        for c in self.candidates(st, o, off, n):
            v = self.from_entries(o.data[c:c + n], t)
            if v is UNDEF:
                continue
            r = v if r is None else self.choose(eq(off, c, 64), v, r, t)
        if r is None:
            return UNDEF
        return r

    def choose(self, c, a, b, t):
        """value-level ite"""
        if type(c) is not T:
            return a if c else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if type(a) is Vec:
            et = t[2]
            return Vec([self.choose(c, x, y, et) for x, y in zip(a.e, b.e)])
        if type(a) is Agg:
            ts = t[1] if t[0] == 's' else [t[2]] * t[1]
            return Agg([self.choose(c, x, y, et) for x, y, et in zip(a.e, b.e, ts)])
        if type(a) in (int, T) and type(b) in (int, T):
            w = t[1] if t[0] in ('i', 'f') else 64
            return ite(c, a, b, w)
        return self.pite(c, a, b)

    def pite(self, c, a, b):
        if type(a) is type(b) and a == b:
            return a
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off, 64))
        return PIte(c, a, b)

    def concretize(self, st, off):
        """if the path forces a single value, return it"""
        v = None
        for m in st.models:
            x = m.val(off)
            if v is None:
                v = x
            elif v != x:
                return off
        if v is None:
            return off
        c = eq(off, v, 64)
        t, f = self.feasible(st, c)
        if f is None:
            return v
        if t is not None:
            st.models += f[:1]
        return off

    def store(self, st, p, v, t, al):
        p = self.deref(st, p)
        o = self.getobj(st, p.obj)
        n = sizeof(t)
        off = self.norm(st, p.off)
        if o.ro:
            self.fault(st, 'ub', 'write to read-only %s' % o.name)
            raise Dead()
        self.in_bounds(st, o, off, n)
        self.align_ok(st, o, off, al)
        if type(off) is T:
            off = self.concretize(st, off)
        es = self.to_entries(v, t)
        if p.obj not in st.mem:
            st.mem[p.obj] = self.global_objs[p.obj].clone()
        o = st.wobj(p.obj)
        if type(off) is not T:
            o.data[off:off + n] = es
            return
        self.note_addr(st, off)
        bs = []
        for e in es:
            b = entry_byte(e)
            if b is None:
                if e is not None:
                    raise Unsupported('pointer store at symbolic offset')
                b = 0
            bs.append(b)
        st.log = st.log + ((p.obj, off, tuple(bs)),)
        old = list(o.data)
        lo, hi = self.written(st, off, n, o.size)
        for c in self.candidates(st, o, off, n):
            cd = eq(off, c, 64)
            if type(cd) is not T and not cd or c < lo or c + n > hi:
                continue
            for i in range(n):
                x = entry_byte(o.data[c + i])
                if x is None:
                    if old[c + i] is not None:
                        raise Unsupported('symbolic store over pointer')
                    x = bs[i]
                y = ite(cd, bs[i], x, 8)
                o.data[c + i] = y if type(y) is int else (y, 0)

    def written(self, st, off, n, size):
        """the smallest range [lo, hi) that [off, off + n) always stays in (known to be within size)"""
        def least(lo, hi, f):
            while lo < hi:
                mid = (lo + hi) // 2
                ok, _ = self.prove(st, f(mid))
                if ok:
                    hi = mid
                else:
                    lo = mid + 1
            return lo
        end = add(off, n, 64)
        if type(end) is not T:
            hi = end
        else:
            m = max([x.val(end) for x in st.models] or [0])
            m = m if m <= size else 0
            hi = least(m, size, lambda b: ule(end, b, 64))
        if type(off) is not T:
            lo = off
        else:
            m = min([x.val(off) for x in st.models] or [hi])
            m = m if m <= hi else hi
            lo = m - least(0, m, lambda b: ule(m - b, off, 64))
        return lo, hi

    # ------------------------------------------------------------ path condition
    def assume(self, st, c, models=None):
        """add a (feasible) condition to the path"""
        c = self.norm(st, c)
        if type(c) is not T:
            return
        st.pc = st.pc + (c,)
        self.add_fact(st, c, True)
        if models is not None:
            st.models = list(models) if isinstance(models, list) else [models]

    def add_fact(self, st, c, v):
        f = st.facts
        if c.op == 'not':
            self.add_fact(st, c.args[0], not v)
            return
        f[c] = v
        if v and c.op == 'and' or (not v and c.op == 'or'):
            for y in c.args:
                self.add_fact(st, y, v)

    def feasible(self, st, c):
        """-> (models with c true or None, models with c false or None); c is a T"""
        tms = []
        fms = []
        for m in st.models:
            (tms if m.val(c) else fms).append(m)
        if not tms:
            r, m = self.smt.check(st.pc, True, goal=c, base=st.models[0] if st.models else None)
            if r == 'sat':
                tms.append(m)
            if r == 'unknown':
                raise Incomplete('solver undecided on a branch')
        if not fms:
            r, m = self.smt.check(st.pc, True, goal=not_(c), base=st.models[0] if st.models else None)
            if r == 'sat':
                fms.append(m)
            if r == 'unknown':
                raise Incomplete('solver undecided on a branch')
        return (tms or None), (fms or None)

    def prove(self, st, c):
        """-> (True, None) or (False, model) or (None, None)"""
        c = self.norm(st, c)
        if type(c) is not T:
            if c:
                return True, None
            return False, (st.models[0] if st.models else None)
        for m in st.models:
            if not m.val(c):
                return False, m
        r, m = self.smt.check(st.pc, True, goal=not_(c), base=st.models[0] if st.models else None)
        if r == 'unsat':
            return True, None
        if r == 'sat':
            return False, m
        return None, None

    def tidy(self, st, regs=None):
        """simplify everything the state holds by what its path has decided"""
        m = {c: (1 if v else 0) for c, v in st.facts.items()}
        if not m:
            return regs
        memo = {}

        def f(v):
            if type(v) is T:
                if v.op == 'const':
                    return v
                return tm.subst(v, m, memo)
            if type(v) is Ptr:
                return Ptr(v.obj, f(v.off)) if type(v.off) is T else v
            if type(v) is Vec or type(v) is Agg:
                return type(v)([f(x) for x in v.e])
            if type(v) is PIte:
                c = f(v.c)
                if type(c) is not T:
                    return f(v.a if c else v.b)
                return PIte(c, f(v.a), f(v.b))
            return v
        for oid, o in list(st.mem.items()):
            d = o.data
            if d is None or o.ro:
                continue
            new = None
            i = 0
            n = len(d)
            while i < n:
                x = d[i]
                if type(x) is not tuple:
                    i += 1
                    continue
                v, k = x
                if type(v) is T and v.op == 'const':
                    i += 1
                    continue
                y = f(v)
                if y is v or (type(y) is type(v) and y == v):
                    i += 1
                    continue
                if new is None:
                    new = list(d)
                if type(y) is int:
                    new[i] = (y >> (8 * k)) & 255 if type(v) is T else (y, k)
                    if type(v) is T and v.w > 8:
                        new[i] = (const(y, v.w), k)
                else:
                    new[i] = (y, k)
                i += 1
            if new is not None:
                st.wobj(oid).data = new
        if regs is not None:
            return {k: f(v) for k, v in regs.items()}

    def resolve(self, st, regs, cap=16):
        """decide choices inside words and pointers by the path condition; -> simplified regs"""
        tried = set()
        for rnd in range(4):
            seen = {}
            conds = []

            def walk(v):
                if type(v) is PIte:
                    if type(v.c) is T:
                        visit(v.c)
                        conds.append(v.c)
                    walk(v.a)
                    walk(v.b)
                elif type(v) is Ptr:
                    if type(v.off) is T:
                        visit(v.off)
                elif type(v) is Agg:
                    for x in v.e:
                        walk(x)
                elif type(v) is T and (v.w == 1 or v.w >= 32):
                    visit(v)

            def visit(t):
                for x in tm.topo_memo([t], seen):
                    seen[x] = True
                    if x.op == 'ite' and x.w >= 16:
                        conds.append(x.args[0])
            for v in regs.values():
                walk(v)
            for oid, o in st.mem.items():
                if o.ro or not o.data:
                    continue
                for x in o.data:
                    if type(x) is tuple and x[1] == 0:
                        walk(x[0])
            n = 0
            for c in conds:
                if c in st.facts or c in tried or cap <= 0:
                    continue
                tried.add(c)
                vs = set(bool(m.val(c)) for m in st.models)
                if len(vs) != 1:
                    continue
                cap -= 1
                v = vs.pop()
                if self.smt.quick(st.pc, not_(c) if v else c):
                    self.add_fact(st, c, v)
                    n += 1
            if not n:
                return regs
            regs = self.tidy(st, regs)
        return regs

    def branch(self, st, c):
        """-> (state if c, state if not c); either may be None"""
        c = self.norm(st, c)
        if type(c) is not T:
            return (st, None) if c else (None, st)
        if self.secret_pred is not None:
            self.note_secret(st, c, 'branch')
        if st.facts and any(x.op == 'ite' and x.args[0] in st.facts for x in tm.topo([c])):
            c = tm.subst(c, {k: (1 if v else 0) for k, v in st.facts.items()})
            if type(c) is T:
                c = self.norm(st, c)
            if type(c) is not T:
                return (st, None) if c else (None, st)
        c = self.nonnull(st, c)
        if type(c) is not T:
            return (st, None) if c else (None, st)
        t, f = self.feasible(st, c)
        if f is None:
            self.add_fact(st, c, True)
            return st, None
        if t is None:
            self.add_fact(st, c, False)
            return None, st
        s2 = st.copy()
        self.assume(st, c, t)
        self.assume(s2, not_(c), f)
        return st, s2

    def nonnull(self, st, c):
        """(p ? 0 : address) == 0 is p"""
        neg = c.op == 'not'
        d = c.args[0] if neg else c
        if d.op != 'eq' or type(d.args[0]) is not T or d.args[0].op != 'ite' or d.args[0].w != 64 or d.args[1] != 0:
            return c
        p, x, y = d.args[0].args
        if type(x) is not T and x == 0 and type(y) is T:
            ok, _ = self.prove(st, or_(p, tm.ne(y, 0, 64), 1))
            r = p
        elif type(y) is not T and y == 0 and type(x) is T:
            ok, _ = self.prove(st, or_(not_(p), tm.ne(x, 0, 64), 1))
            r = not_(p)
        else:
            return c
        if not ok:
            return c
        return self.norm(st, not_(r) if neg else r)

    def note_addr(self, st, off):
        if self.secret_pred is not None:
            self.note_secret(st, off, 'address')

    def note_secret(self, st, c, what):
        ls = tm.leaves(c)
        bad = [l for l in ls if self.secret_pred(l)]
        if bad:
            self.secret_events.append((what, c, st.pc, list(self.stack), bad))

    # ------------------------------------------------------------ faults
    def fault(self, st, kind, why):
        self.panics.append((kind, why, st.pc, st.models[0] if st.models else None, [f for f in self.stack]))

    # ------------------------------------------------------------ constants
    def constant(self, c, mod):
        if c.cache is not None and c.cache[0] is mod and c.cache[2] is self.ident:
            return c.cache[1]
        v = self._constant(c, mod)
        c.cache = (mod, v, self.ident)
        return v

    def _constant(self, c, mod):
        k = c.k
        if k == 'int':
            return c.v
        if k == 'null':
            return 0
        if k == 'undef':
            return self.undef(c.ty)
        if k == 'zero':
            return self.zero(c.ty)
        if k == 'agg':
            e = [self.constant(x, mod) if isinstance(x, Const) else x for x in c.v]
            return Vec(e) if c.ty[0] == 'v' else Agg(e)
        if k == 'bytes':
            return Agg(list(c.v))
        if k == 'global':
            return self.globalref(c.v, mod)
        if k == 'gep':
            bt, ops = c.v
            p = self.constant(ops[0][1], mod)
            off = 0
            t = bt
            for i, (it, x) in enumerate(ops[1:]):
                n = self.constant(x, mod)
                n = n - (1 << it[1]) if n >> (it[1] - 1) else n
                if i == 0:
                    off += n * sizeof(t)
                else:
                    off += field_off(t, n)
                    t = t[2] if t[0] in ('a', 'v') else t[1][n]
            return Ptr(p.obj, (p.off + off) & mask(64)) if type(p) is Ptr else (p + off) & mask(64)
        if k == 'cast':
            op, t, x, t2 = c.v
            v = self.constant(x, mod)
            if op == 'ptrtoint':
                if type(v) is Ptr:
                    return (self.gobj(v.obj).base + v.off) & mask(64)
                return self.fn_addr(v) if type(v) is Fn else v
            return v
        raise Unsupported('constant ' + k)

    def undef(self, t):
        if t[0] in ('v', 'a'):
            return (Vec if t[0] == 'v' else Agg)([self.undef(t[2]) for _ in range(t[1])])
        if t[0] == 's':
            return Agg([self.undef(x) for x in t[1]])
        return UNDEF

    def zero(self, t):
        if t[0] in ('v', 'a'):
            return (Vec if t[0] == 'v' else Agg)([self.zero(t[2]) for _ in range(t[1])])
        if t[0] == 's':
            return Agg([self.zero(x) for x in t[1]])
        return 0

    def globalref(self, name, mod):
        f = name in mod.funcs or name in self.prog.where
        if f or name in mod.decls:
            return Fn(name, mod)
        m, g = self.prog.find_global(name, mod)
        if g is None:
            return Fn(name, mod)
        if g[0] == 'alias':
            return self.constant(g[1], m)
        key = (m.name, name)
        if key in self.globs:
            return Ptr(self.globs[key], 0)
        _, ty, init, align, mutable = g
        self.objn += 1
        oid = self.objn
        o = Obj(sizeof(ty), align, (oid << 36) + max(align, 16), name, 'global')
        o.ro = not mutable
        self.global_objs[oid] = o
        self.globs[key] = oid
        if init is None:
            o.data = [None] * o.size
        else:
            o.data = self.to_entries(self.constant(init, m), ty)
        return Ptr(oid, 0)

    # ------------------------------------------------------------ running
    def run(self, fname, st, args):
        """execute a defined function on a state -> list of (state, value)"""
        fn = self.prog.find(fname)
        if fn is None:
            raise Unsupported('no function ' + fname)
        return self.call_fn(fn, st, args)

    def call_fn(self, fn, st, args):
        self.funcs_run[fn.name] = self.funcs_run.get(fn.name, 0) + 1
        if self.check_features and fn.features:
            self.need_features(st, fn)
        if len(self.stack) > 150:
            raise Unsupported('call depth')
        self.stack.append(fn.name)
        regs = {}
        for (t, n), a in zip(fn.params, args):
            regs[n] = a
        fr = Frame(self, fn)
        try:
            rets = fr.run(regs, st)
        finally:
            self.stack.pop()
        # drop the frame's stack objects
        for s, v in rets:
            for oid in fr.allocas:
                s.mem.pop(oid, None)
        if len(rets) > 1 and not self.merge_off:
            rets = self.merge_rets(rets, fn.ret)
        return rets

    def need_features(self, st, fn):
        need = set(fn.features) - self.base_feats
        need.discard('crc32')
        if not need:
            return
        key = (fn.name, st.pc)
        for f in sorted(need):
            v = tm.var('cpu:' + f, 1)
            c = self.norm(st, v)
            if type(c) is not T and c == 1:
                continue
            # implied by a detected stronger feature?
            imp = [tm.var('cpu:' + g, 1) for g in IMPLIED_BY.get(f, ())]
            ok, m = self.prove(st, tm.disj([v] + imp))
            if ok:
                continue
            self.p15.append((fn.name, f, st.pc, st.models[0] if st.models else None, list(self.stack)))
            return

    def merge_rets(self, rets, rt):
        out = []
        for s, v in rets:
            for i, (s2, v2) in enumerate(out):
                m = self.merge(s2, s, [(v2, v, rt)])
                if m is not None:
                    out[i] = (m[0], m[1][0])
                    break
            else:
                out.append((s, v))
        return out

    def split(self, st, cond):
        """list of feasible states after deciding cond"""
        a, b = self.branch(st, cond)
        return [x for x in (a, b) if x is not None]

    # ------------------------------------------------------------ merging
    def merge(self, a, b, vals):
        """merge two states; vals: list of (va, vb, type).  -> (state, [values]) or None"""
        if a.out is not b.out and a.out != b.out:
            return None
        pa, pb = a.pc, b.pc
        n = 0
        m = min(len(pa), len(pb))
        while n < m and pa[n] is pb[n]:
            n += 1
        sa, sb = list(pa[n:]), list(pb[n:])
        fa = set(self.flat_conj(sa))
        fb = set(self.flat_conj(sb))
        common = fa & fb
        ra = [c for c in self.flat_conj(sa) if c not in common]
        rb = [c for c in self.flat_conj(sb) if c not in common]
        if not ra or not rb:
            return None
        ca, cb = tm.conj(ra), tm.conj(rb)
        g = ca
        if len(rb) < len(ra):
            g = not_(cb)
        # a complementary pair decides the guard on its own
        sra = set(rb)
        for c in ra:
            if not_(c) in sra:
                g = c
                break
        d = or_(ca, cb, 1)
        outs = []
        for va, vb, t in vals:
            if t is None or t[0] == 'void':
                outs.append(va)
                continue
            r = self.mergeval(g, va, vb, t)
            if r is NOMERGE:
                return None
            outs.append(r)
        s = State()
        s.pc = pa[:n] + tuple(c for c in self.flat_conj(sa) if c in common)
        if type(d) is T:
            s.pc = s.pc + (d,)
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        ms = []
        for i in range(max(len(a.models), len(b.models))):
            if i < len(a.models):
                ms.append(a.models[i])
            if i < len(b.models):
                ms.append(b.models[i])
        s.models = ms[:6]
        if a.log is b.log or a.log == b.log:
            s.log = a.log
        else:
            k = 0
            while k < len(a.log) and k < len(b.log) and a.log[k] is b.log[k]:
                k += 1
            s.log = a.log[:k] + (None,)
        s.out = a.out
        s.events = a.events if a.events == b.events else tuple(dict.fromkeys(a.events + b.events))
        mem = {}
        for oid, oa in a.mem.items():
            ob = b.mem.get(oid)
            if ob is None or ob is oa:
                mem[oid] = oa
                continue
            if oa.data is None or ob.data is None or len(oa.data) != len(ob.data):
                mem[oid] = oa
                continue
            r = self.mergedata(g, oa.data, ob.data)
            if r is NOMERGE:
                return None
            if r is oa.data:
                mem[oid] = oa
                continue
            o = Obj(oa.size, oa.align, oa.base, oa.name, oa.kind)
            o.arr = oa.arr
            o.ro = oa.ro
            o.data = r
            o.owner = s.tok
            mem[oid] = o
        for oid, ob in b.mem.items():
            if oid not in mem:
                mem[oid] = ob
        s.mem = mem
        # objects shared with a / b must not be written in place
        return s, outs

    def flat_conj(self, l):
        out = []
        for c in l:
            if c.op == 'and':
                out.extend(c.args)
            else:
                out.append(c)
        return out

    def mergeval(self, g, a, b, t):
        if a is b:
            return a
        try:
            return self.choose(g, a, b, t)
        except AttributeError:
            return NOMERGE

    def mergedata(self, g, da, db):
        r = None
        n = len(da)
        i = 0
        while i < n:
            x = da[i]
            y = db[i]
            if x is y or (type(x) is type(y) and x == y):
                i += 1
                continue
            if r is None:
                r = list(da)
            wa = self.run_at(da, i)
            wb = self.run_at(db, i)
            if wa is None and wb is None:
                # plain bytes / undefined
                bx = x if x is None else entry_byte(x)
                by = y if y is None else entry_byte(y)
                if x is None:
                    r[i] = y
                elif y is None:
                    r[i] = x
                elif bx is None or by is None:
                    raise Unsupported('merge of partial pointer')
                else:
                    z = ite(g, bx, by, 8)
                    r[i] = z if type(z) is int else (z, 0)
                i += 1
                continue
            lo, ln = None, None
            if wa is not None and wb is not None and wa == wb:
                lo, ln = wa
            elif wb is None:
                lo, ln = wa
            elif wa is None:
                lo, ln = wb
            if lo is not None and lo == i:
                va = self.word(da, lo, ln)
                vb = self.word(db, lo, ln)
                if va is UNDEF or vb is UNDEF:
                    v = va if vb is UNDEF else vb
                    src = da if vb is UNDEF else db
                    r[lo:lo + ln] = src[lo:lo + ln]
                    i = lo + ln
                    continue
                if va is not None and vb is not None:
                    if type(va) in (int, T) and type(vb) in (int, T):
                        v = ite(g, va, vb, 8 * ln)
                        if type(v) is int and ln == 1:
                            r[lo] = v
                        elif type(v) is int:
                            c = const(v, 8 * ln)
                            r[lo:lo + ln] = [(c, j) for j in range(ln)]
                        else:
                            r[lo:lo + ln] = [(v, j) for j in range(ln)]
                    else:
                        v = self.pite(g, va, vb)
                        r[lo:lo + ln] = [(v, j) for j in range(ln)]
                    i = lo + ln
                    continue
            # different shapes: byte by byte
            bx = entry_byte(x) if x is not None else None
            by = entry_byte(y) if y is not None else None
            if x is None:
                r[i] = y
            elif y is None:
                r[i] = x
            elif bx is None or by is None:
                return NOMERGE
            else:
                z = ite(g, bx, by, 8)
                r[i] = z if type(z) is int else (z, 0)
            i += 1
        return da if r is None else r

    def run_at(self, d, i):
        """(start, length) of the word entry that covers byte i, if it is intact"""
        e = d[i]
        if type(e) is not tuple:
            return None
        v, k = e
        n = v.w // 8 if type(v) is T else 8
        lo = i - k
        if lo < 0 or lo + n > len(d):
            return None
        for j in range(n):
            x = d[lo + j]
            if type(x) is not tuple or x[1] != j or (x[0] is not v and x[0] != v):
                return None
        return lo, n

    def word(self, d, lo, n):
        try:
            return self.scalar(d[lo:lo + n], 8 * n)
        except Unsupported:
            return None


class _NoMerge(object):
    pass


NOMERGE = _NoMerge()

IMPLIED_BY = {
    'sse3': ('ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2'),
    'ssse3': ('sse4.1', 'sse4.2', 'avx', 'avx2'),
    'sse4.1': ('sse4.2', 'avx', 'avx2'),
    'sse4.2': ('avx', 'avx2'),
    'popcnt': ('avx', 'avx2', 'sse4.2'),
    'xsave': ('avx', 'avx2'),
    'avx': ('avx2',),
}

PANIC = re.compile(r'core9panicking|slice_index_fail|len_mismatch_fail|unwrap_failed|expect_failed|begin_panic|panic_')


class Frame(object):
    def __init__(self, eng, fn):
        self.e = eng
        self.fn = fn
        self.allocas = []
        self.rets = []

    def run(self, regs, st):
        pending = {self.fn.entry: [(regs, st)]}
        self.explore(pending, None, None)
        return self.rets

    # pending: label -> [(regs, state)]
    def explore(self, pending, inside, exits):
        """process pending labels in weak topological order.  With `inside` (a loop
        head) only labels of that component are processed, others go to `exits`;
        arrivals back at the head are returned."""
        e = self.e
        fn = self.fn
        pos = fn.pos
        back = []
        while pending:
            lab = min(pending, key=pos.__getitem__)
            items = pending.pop(lab)
            if inside is not None:
                if lab == inside:
                    back += items
                    continue
                if inside not in fn.comp[lab]:
                    exits.setdefault(lab, []).extend(items)
                    continue
            items = self.merge_items(lab, items)
            for regs, st in items:
                if lab in fn.heads:
                    self.loop(lab, regs, st, pending)
                else:
                    self.block(lab, regs, st, pending)
        return back

    def merge_items(self, lab, items):
        if len(items) == 1 or self.e.merge_off:
            return items
        live = self.fn.live[lab]
        out = []
        for regs, st in items:
            for i, (r2, s2) in enumerate(out):
                keys = [k for k in r2 if k in live and k in regs]
                vals = [(r2[k], regs[k], self.rtype(k)) for k in keys]
                try:
                    m = self.e.merge(s2, st, vals)
                except Unsupported:
                    m = None
                if m is not None:
                    out[i] = (dict(zip(keys, m[1])), m[0])
                    break
            else:
                out.append((regs, st))
        return out

    def rtype(self, reg):
        fn = self.fn
        rt = getattr(fn, 'rtypes', None)
        if rt is None:
            rt = {}
            for t, n in fn.params:
                rt[n] = t
            for b in fn.blocks.values():
                for ins in b:
                    if ins[1]:
                        rt[ins[1]] = ins_type(ins)
            fn.rtypes = rt
        return rt[reg]

    # ------------------------------------------------------------ loops
    def loop(self, head, regs, st, pending):
        e = self.e
        live = self.fn.live[head]
        regs = e.tidy(st, {k: v for k, v in regs.items() if k in live})
        cur = [(regs, st)]
        hist = [self.snap(regs, st, live)]
        saved = []            # exits and returns of the iterations since hist[0]
        symb = 0
        tries = 0

        def flush():
            for ex, rt in saved:
                for lab, items in ex.items():
                    pending.setdefault(lab, []).extend(items)
                self.rets += rt
            del saved[:]
        for it in range(100000):
            exits = {}
            nrets = len(self.rets)
            p2 = {}
            for r, s in cur:
                self.block(head, r, s, p2)
            back = self.explore(p2, head, exits)
            rt = self.rets[nrets:]
            del self.rets[nrets:]
            symbolic = bool(exits) or bool(rt)
            saved.append((exits, rt))
            if not back:
                flush()
                return
            cur = self.merge_items(head, back)
            if symbolic:
                cur = [(e.resolve(s, e.tidy(s, {k: v for k, v in r.items() if k in live})), s) for r, s in cur]
            if not symbolic:
                flush()
                symb = 0
                hist = [self.snap(cur[0][0], cur[0][1], live)] if len(cur) == 1 else []
                if it > 20000:
                    raise Unsupported('loop too long')
                continue
            symb += 1
            if e.lift is not None:
                for r, s in cur:
                    e.lift(e, s)
            if len(cur) == 1:
                hist.append(self.snap(cur[0][0], cur[0][1], live))
            else:
                hist = []
                flush()
            if e.allow_induct and len(hist) >= 3 and tries < 2:
                tries += 1
                if self.induct(head, hist[-3:], 0, pending):
                    return
                if self.induct(head, hist[-3:], 1, pending):
                    flush()
                    return
                flush()
                hist = hist[-1:]
            elif tries >= 2 or not e.allow_induct:
                flush()
            if symb >= e.unroll:
                flush()
                if e.must_close:
                    raise Incomplete('loop %s %s neither ends nor closes' % (self.fn.name, head))
                loc = '%s %s' % (self.fn.name, head)
                e.bounded[loc] = max(e.bounded.get(loc, 0), symb)
                return

    def snap(self, regs, st, live):
        return ({k: v for k, v in regs.items() if k in live}, st.copy())

    def induct(self, head, hs, base, pending):
        e = self.e
        import induct
        G = induct.generalise(e, self, head, hs, base)
        if G is None:
            if e.log:
                e.log('no summary guess at %s %s' % (self.fn.name, head))
            return False
        regs, make, close = G
        mark = (len(e.panics), len(e.secret_events), len(e.p15), len(self.rets))
        for attempt in range(6):
            st = make()
            exits = {}
            if st is None:            # no such arrival exists
                return base == 1
            p2 = {}
            try:
                self.block(head, dict(regs), st, p2)
                back = self.explore(p2, head, exits)
            except Unsupported as ex:
                if e.log:
                    e.log('summary not executable: %s' % ex)
                back = None
            ok = back is not None
            if ok:
                if e.lift is not None:
                    for r, s in back:
                        e.lift(e, s)
                back = self.merge_items(head, back)
                for r, s in back:
                    r = e.resolve(s, e.tidy(s, {k: v for k, v in r.items() if k in regs}))
                    ok = close(r, s)
                    if ok is not True:
                        break
            if ok is True:
                for lab, items in exits.items():
                    pending.setdefault(lab, []).extend(items)
                loc = '%s %s' % (self.fn.name, head)
                e.inducted[loc] = e.inducted.get(loc, 0) + 1
                return True
            del e.panics[mark[0]:]
            del e.secret_events[mark[1]:]
            del e.p15[mark[2]:]
            del self.rets[mark[3]:]
            if ok != 'retry':
                if e.log:
                    e.log('induction not closed at %s %s base %d' % (self.fn.name, head, base))
                return False
        return False

    # ------------------------------------------------------------ blocks
    def block(self, lab, regs, st, pending):
        e = self.e
        ins = self.fn.blocks[lab]
        e.blocks += 1
        work = [(regs, st, 0)]
        while work:
            regs, st, i = work.pop()
            while True:
                x = ins[i]
                op = x[0]
                e.instrs += 1
                if e.instrs & 0xfff == 0 and e.deadline and time.time() > e.deadline:
                    raise Incomplete('time budget used up')
                try:
                    if op == 'call':
                        res = self.call(x, regs, st)
                        if not res:
                            break
                        if x[5]:      # invoke
                            for s, v in res:
                                r = dict(regs) if len(res) > 1 else regs
                                if x[1]:
                                    r[x[1]] = v
                                self.goto(lab, x[5], r, s, pending)
                            break
                        if len(res) == 1:
                            st, v = res[0]
                            if x[1]:
                                regs[x[1]] = v
                            i += 1
                            continue
                        for s, v in res[1:]:
                            r = dict(regs)
                            if x[1]:
                                r[x[1]] = v
                            work.append((r, s, i + 1))
                        st, v = res[0]
                        regs = dict(regs)
                        if x[1]:
                            regs[x[1]] = v
                        i += 1
                        continue
                    if op == 'br':
                        self.goto(lab, x[2], regs, st, pending)
                        break
                    if op == 'cbr':
                        c = self.val(x[2], regs)
                        if c is UNDEF:
                            e.fault(st, 'ub', 'branch on undefined value')
                            break
                        a, b = e.branch(st, c)
                        if a is not None and b is not None:
                            self.goto(lab, x[3], dict(regs), a, pending)
                            self.goto(lab, x[4], regs, b, pending)
                        elif a is not None:
                            self.goto(lab, x[3], regs, a, pending)
                        elif b is not None:
                            self.goto(lab, x[4], regs, b, pending)
                        break
                    if op == 'switch':
                        v = e.norm(st, self.val(x[3], regs))
                        w = x[2][1]
                        cur = st
                        for k, l in x[5]:
                            if cur is None:
                                break
                            a, cur = e.branch(cur, eq(v, k, w))
                            if a is not None:
                                self.goto(lab, l, dict(regs), a, pending)
                        if cur is not None:
                            self.goto(lab, x[4], regs, cur, pending)
                        break
                    if op == 'ret':
                        v = self.val(x[3], regs) if x[3] is not None else None
                        self.rets.append((st, v))
                        break
                    if op == 'unreachable':
                        e.fault(st, 'ub', 'unreachable code reached')
                        break
                    f = getattr(self, 'x_' + op)
                    f(x, regs, st)
                    i += 1
                except Fork as fk:
                    ss = e.split(st, fk.cond)
                    for s in ss[1:]:
                        work.append((dict(regs), s, i))
                    if not ss:
                        break
                    st = ss[0]
                    continue
                except Dead:
                    break

    def goto(self, src, dst, regs, st, pending):
        ins = self.fn.blocks[dst]
        if ins[0][0] == 'phi':
            new = {}
            for x in ins:
                if x[0] != 'phi':
                    break
                for lab, v in x[3]:
                    if lab == src:
                        new[x[1]] = self.val(v, regs)
                        break
            regs.update(new)
        pending.setdefault(dst, []).append((regs, st))

    def val(self, o, regs):
        if type(o) is str:
            return regs[o]
        if o.k == 'int':
            return o.v
        return self.e.constant(o, self.fn.mod)

    # ------------------------------------------------------------ instructions
    def x_phi(self, x, regs, st):
        pass

    def x_landingpad(self, x, regs, st):
        raise Dead()

    def x_resume(self, x, regs, st):
        raise Dead()

    def x_alloca(self, x, regs, st):
        oid = self.e.new_obj(st, x[2], x[3], self.fn.name[-24:] + x[1])
        self.allocas.append(oid)
        regs[x[1]] = Ptr(oid, 0)

    def x_load(self, x, regs, st):
        v = self.e.load(st, self.val(x[3], regs), x[2], x[4])
        if type(v) is T or type(v) is PIte:
            v = self.e.norm(st, v)
        regs[x[1]] = v

    def x_store(self, x, regs, st):
        self.e.store(st, self.val(x[4], regs), self.val(x[3], regs), x[2], x[5])

    def x_gep(self, x, regs, st):
        p = self.val(x[3], regs)
        off = 0
        t = x[2]
        first = True
        for it, o in x[4]:
            n = self.val(o, regs)
            if n is UNDEF:
                regs[x[1]] = UNDEF
                return
            if type(n) is T:
                n = self.e.norm(st, n)
            if first:
                if it[1] < 64:
                    n = tm.sext(n, it[1], 64)
                off = add(off, mul(n, sizeof(t), 64), 64)
                first = False
                continue
            if t[0] in ('a', 'v'):
                if it[1] < 64:
                    n = tm.sext(n, it[1], 64)
                off = add(off, mul(n, sizeof(t[2]), 64), 64)
                t = t[2]
            else:
                off = add(off, field_off(t, n), 64)
                t = t[1][n]
        regs[x[1]] = self.padd(st, p, off)

    def padd(self, st, p, off):
        if type(p) is Ptr:
            return Ptr(p.obj, add(p.off, off, 64))
        if type(p) is PIte:
            p = self.e.norm(st, p)
            if type(p) is PIte:
                return self.e.pite(p.c, self.padd(st, p.a, off), self.padd(st, p.b, off))
            return self.padd(st, p, off)
        if p is UNDEF:
            return UNDEF
        if type(p) is Fn:
            raise Unsupported('gep on function')
        return add(p, off, 64)

    def lanes(self, t, f, *vs):
        if t[0] == 'v':
            return Vec([f(*a) for a in zip(*[v.e for v in vs])])
        return f(*vs)

    def x_bin(self, x, regs, st):
        op, t = x[2], x[3]
        a = self.val(x[4], regs)
        b = self.val(x[5], regs)
        f = BINF.get(op)
        if t[0] == 'v':
            w = t[2][1]
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                raise Unsupported('vector ' + op)
            regs[x[1]] = Vec([UNDEF if p is UNDEF or q is UNDEF else f(p, q, w) for p, q in zip(a.e, b.e)])
            return
        w = t[1]
        if a is UNDEF or b is UNDEF:
            regs[x[1]] = UNDEF
            return
        if type(a) not in (int, T) or type(b) not in (int, T):
            e = self.e
            a = e.addr(st, a) if type(a) not in (int, T) else a
            b = e.addr(st, b) if type(b) not in (int, T) else b
        if type(a) is T:
            a = self.e.norm(st, a)
        if type(b) is T:
            b = self.e.norm(st, b)
        if op in ('udiv', 'urem'):
            self.e.require(st, tm.ne(b, 0, w), 'ub', 'division by zero')
            b = self.e.norm(st, b)
        elif op in ('sdiv', 'srem'):
            if type(a) is T or type(b) is T:
                raise Unsupported(op)
            sa, sb = tm._sgn(a, w), tm._sgn(b, w)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            regs[x[1]] = (q if op == 'sdiv' else sa - q * sb) & mask(w)
            return
        regs[x[1]] = f(a, b, w)

    def x_cast(self, x, regs, st):
        op, t, t2 = x[2], x[3], x[5]
        v = self.val(x[4], regs)
        regs[x[1]] = self.cast(op, t, v, t2, st)

    def cast(self, op, t, v, t2, st):
        e = self.e
        if op == 'bitcast':
            if t == t2:
                return v
            return e.from_entries(e.to_entries(v, t), t2)
        if t[0] == 'v':
            return Vec([self.cast(op, t[2], x, t2[2], st) for x in v.e])
        if v is UNDEF:
            return UNDEF
        if op == 'ptrtoint':
            a = e.addr(st, v)
            return a if t2[1] == 64 else tm.trunc(a, t2[1])
        if op == 'inttoptr':
            if type(v) in (int, T):
                if v == 0:
                    return 0
                q = e.resolve_int_ptr(st, v)
                return q if q is not None else v
            return v
        if op == 'zext':
            return tm.zext(v, t[1], t2[1])
        if op == 'sext':
            return tm.sext(v, t[1], t2[1])
        if type(v) not in (int, T):
            v = e.addr(st, v)
        return tm.trunc(v, t2[1])

    def x_icmp(self, x, regs, st):
        pred, t = x[2], x[3]
        a = self.val(x[4], regs)
        b = self.val(x[5], regs)
        if t[0] == 'v':
            regs[x[1]] = Vec([self.cmp(pred, p, q, t[2], st) for p, q in zip(a.e, b.e)])
        else:
            regs[x[1]] = self.cmp(pred, a, b, t, st)

    def cmp(self, pred, a, b, t, st):
        e = self.e
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a = e.norm(st, a) if type(a) is not int else a
        b = e.norm(st, b) if type(b) is not int else b
        w = 64 if t[0] == 'p' else t[1]
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            a, b = a.off, b.off
        else:
            if type(a) in (Ptr, Fn) and type(b) is int and b == 0 or type(b) in (Ptr, Fn) and type(a) is int and a == 0:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
            a = e.addr(st, a)
            b = e.addr(st, b)
        if pred == 'eq':
            return eq(a, b, w)
        if pred == 'ne':
            return not_(eq(a, b, w))
        if pred == 'ult':
            return ult(a, b, w)
        if pred == 'ugt':
            return ult(b, a, w)
        if pred == 'ule':
            return not_(ult(b, a, w))
        if pred == 'uge':
            return not_(ult(a, b, w))
        if pred == 'slt':
            return tm.slt(a, b, w)
        if pred == 'sgt':
            return tm.slt(b, a, w)
        if pred == 'sle':
            return not_(tm.slt(b, a, w))
        return not_(tm.slt(a, b, w))

    def x_select(self, x, regs, st):
        e = self.e
        c = self.val(x[3], regs)
        a = self.val(x[5], regs)
        b = self.val(x[6], regs)
        t = x[4]
        if type(c) is Vec:
            regs[x[1]] = Vec([e.choose(ci, p, q, t[2]) for ci, p, q in zip(c.e, a.e, b.e)])
            return
        if c is UNDEF:
            regs[x[1]] = a
            return
        c = e.norm(st, c)
        if self.e.secret_pred is not None and type(c) is T and False:
            pass
        regs[x[1]] = e.choose(c, a, b, t)

    def x_extractvalue(self, x, regs, st):
        v = self.val(x[3], regs)
        for i in x[4]:
            v = v.e[i]
        regs[x[1]] = v

    def x_insertvalue(self, x, regs, st):
        v = self.val(x[3], regs)
        y = self.val(x[5], regs)

        def ins(v, idx):
            if not idx:
                return y
            e = list(v.e)
            e[idx[0]] = ins(e[idx[0]], idx[1:])
            return Agg(e)
        regs[x[1]] = ins(v, x[6])

    def x_extractelement(self, x, regs, st):
        v = self.val(x[3], regs)
        i = self.val(x[4], regs)
        if type(i) is T:
            raise Unsupported('symbolic lane')
        regs[x[1]] = v.e[i]

    def x_insertelement(self, x, regs, st):
        v = self.val(x[3], regs)
        i = self.val(x[5], regs)
        if type(i) is T:
            raise Unsupported('symbolic lane')
        e = list(v.e)
        e[i] = self.val(x[4], regs)
        regs[x[1]] = Vec(e)

    def x_shuffle(self, x, regs, st):
        a = self.val(x[3], regs).e
        b = self.val(x[4], regs).e
        m = self.val(x[5], regs).e
        n = len(a)
        regs[x[1]] = Vec([UNDEF if i is UNDEF else a[i] if i < n else b[i - n] for i in m])

    def x_freeze(self, x, regs, st):
        v = self.val(x[3], regs)
        regs[x[1]] = v

    # ------------------------------------------------------------ calls
    def call(self, x, regs, st):
        e = self.e
        _, dest, rt, callee, args, normal, noret = x
        if type(callee) is str:
            f = e.norm(st, regs[callee])
        else:
            f = e.constant(callee, self.fn.mod)
        if type(f) is PIte:
            raise Fork(f.c)
        if type(f) is not Fn:
            if type(f) is T:
                raise Unsupported('call of unknown pointer')
            e.fault(st, 'ub', 'call through invalid pointer')
            return []
        name = f.name
        if name.startswith('@llvm.'):
            return self.intrinsic(name, x, regs, st)
        vals = [self.val(a, regs) if a is not None else None for t, a in args]
        h = e.hooks.get(name)
        if h is not None:
            return h(e, st, vals, x, self)
        if 'std_detect' in name:
            if '5cache4test' in name:
                bit = vals[0]
                if e.featprobe is not None:
                    e.featprobe.append(bit)
                    return [(st, 1)]
                fname = e.featbits.get(bit, 'bit%s' % bit)
                v = tm.var('cpu:' + fname, 1)
                e.features_seen[fname] = e.features_seen.get(fname, 0) + 1
                return [(st, v)]
        mod = f.mod
        fn = e.prog.find(name, mod)
        if fn is not None and fn.noreturn or noret:
            kind = 'ub' if 'nounwind' in name or 'misaligned' in name or 'null_reference' in name else 'panic'
            if PANIC.search(name) or noret or fn.noreturn:
                e.fault(st, kind, name)
                return []
        if fn is None:
            return self.external(name, x, vals, st)
        if name in ('@memcmp', '@bcmp'):
            return self.external(name, x, vals, st)
        return e.call_fn(fn, st, vals)

    def external(self, name, x, vals, st):
        e = self.e
        if PANIC.search(name):
            e.fault(st, 'ub' if 'nounwind' in name or 'misaligned' in name or 'null_ref' in name else 'panic', name)
            return []
        if e.fmt_hook is not None:
            r = e.fmt_hook(e, name, x, vals, st, self)
            if r is not None:
                return r
        if name in ('@memcmp', '@bcmp'):
            n = e.norm(st, vals[2])
            if type(n) is T:
                n = e.concretize(st, n)
            if type(n) is T:
                # a length with few possible values: one state for each
                out = []
                for k in range(65):
                    s1, st = e.branch(st, tm.eq(n, k, 64))
                    if s1 is not None:
                        out += self.external(name, x, [vals[0], vals[1], k], s1)
                    if st is None:
                        return out
                raise Unsupported('memcmp of symbolic length')
            pa, pb = e.deref(st, vals[0]), e.deref(st, vals[1])
            a = self.bytes_at(st, pa, n)
            b = self.bytes_at(st, pb, n)
            c = 1
            for p, q in zip(a, b):
                c = and_(c, eq(p, q, 8), 1)
            if name == '@bcmp':
                return [(st, ite(c, 0, 1, 32))]
            # sign of the first difference
            r = 0
            for p, q in reversed(list(zip(a, b))):
                r = ite(eq(p, q, 8), r, ite(ult(p, q, 8), mask(32), 1, 32), 32)
            return [(st, r)]
        raise Unsupported('external function ' + name)

    def bytes_at(self, st, p, n):
        e = self.e
        if n == 0:
            return []
        v = e.load(st, p, ('a', n, ('i', 8)), 1)
        return [0 if b is UNDEF else b for b in v.e]

    def intrinsic(self, name, x, regs, st):
        e = self.e
        args = x[4]

        def V(i):
            v = self.val(args[i][1], regs)
            return e.norm(st, v) if type(v) is T else v
        n = name[6:]
        if n.startswith('lifetime.'):
            p = self.val(args[-1][1], regs)
            if type(p) is Ptr and p.obj in st.mem:
                o = st.mem[p.obj]
                if o.kind == 'stack' and type(o.size) is not T and o.data is not None:
                    o2 = Obj(o.size, o.align, o.base, o.name, o.kind)
                    o2.data = [None] * o.size
                    o2.owner = st.tok
                    st.mem[p.obj] = o2
            return [(st, None)]
        if n.startswith('assume'):
            v = self.val(args[0][1], regs)
            if v is UNDEF:
                return [(st, None)]
            e.require(st, v, 'ub', 'llvm.assume violated')
            return [(st, None)]
        if n.startswith(('dbg', 'experimental.noalias', 'invariant', 'donothing', 'prefetch')):
            return [(st, None)]
        if n.startswith('expect'):
            return [(st, V(0))]
        if n.startswith('is.constant'):
            return [(st, 0)]
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, self.val(args[0][1], regs), self.val(args[1][1], regs), V(2))
            return [(st, None)]
        if n.startswith('memset'):
            self.memset(st, self.val(args[0][1], regs), V(1), V(2))
            return [(st, None)]
        m = re.match(r'(\w+)\.with\.overflow\.i(\d+)$', n)
        if m:
            w = int(m.group(2))
            a, b = V(0), V(1)
            return [(st, self.overflow(m.group(1), a, b, w, st))]
        m = re.match(r'(fshl|fshr|uadd\.sat|usub\.sat|umin|umax|smin|smax|ctpop|bswap|ctlz|cttz|abs|bitreverse)\.(v\d+)?i(\d+)$', n)
        if m:
            w = int(m.group(3))
            op = m.group(1)
            vs = []
            for i in range(len(args)):
                vs.append(V(i))
            if m.group(2):
                nl = int(m.group(2)[1:])
                return [(st, Vec([self.intr1(op, [v.e[j] if type(v) is Vec else v for v in vs], w, st) for j in range(nl)]))]
            return [(st, self.intr1(op, vs, w, st))]
        if n in ('x86.ssse3.pshuf.b.128', 'x86.avx2.pshuf.b'):
            a, b = V(0).e, V(1).e
            r = []
            for i in range(len(a)):
                base = i & ~15
                c = b[i]
                if type(c) is T:
                    raise Unsupported('variable byte shuffle')
                r.append(0 if c & 0x80 else a[base + (c & 15)])
            return [(st, Vec(r))]
        m = re.match(r'x86\.(sse2|avx2)\.(psrli|pslli)\.(d|q|w)$', n)
        if m:
            w = {'d': 32, 'q': 64, 'w': 16}[m.group(3)]
            s = V(1)
            f = tm.lshr if m.group(2) == 'psrli' else tm.shl
            return [(st, Vec([f(v, s, w) for v in V(0).e]))]
        m = re.match(r'vector\.reduce\.(add|or|and|xor)\.v\d+i(\d+)$', n)
        if m:
            w = int(m.group(2))
            r = None
            for v in V(0).e:
                r = v if r is None else BINF[m.group(1)](r, v, w)
            return [(st, r)]
        if n == 'trap':
            e.fault(st, 'panic', 'trap')
            return []
        raise Unsupported('intrinsic ' + name)

    def intr1(self, op, v, w, st):
        if any(x is UNDEF for x in v):
            return UNDEF
        if op == 'fshl':
            return tm.fshl(v[0], v[1], v[2], w)
        if op == 'fshr':
            return tm.fshr(v[0], v[1], v[2], w)
        if op == 'umin':
            return tm.umin(v[0], v[1], w)
        if op == 'umax':
            return tm.umax(v[0], v[1], w)
        if op == 'smin':
            return ite(tm.slt(v[0], v[1], w), v[0], v[1], w)
        if op == 'smax':
            return ite(tm.slt(v[0], v[1], w), v[1], v[0], w)
        if op == 'usub.sat':
            return ite(ult(v[0], v[1], w), 0, sub(v[0], v[1], w), w)
        if op == 'uadd.sat':
            s = add(v[0], v[1], w)
            return ite(ult(s, v[0], w), mask(w), s, w)
        if op == 'bswap':
            return cat([(ext(v[0], w - 8 - 8 * i, 8), 8) for i in range(w // 8)])
        if op == 'ctpop':
            if type(v[0]) is not T:
                return bin(v[0]).count('1')
            r = 0
            for i in range(w):
                r = add(r, tm.zext(ext(v[0], i, 1), 1, w), w)
            return r
        if type(v[0]) is not T:
            x = v[0]
            if op == 'ctlz':
                return w - x.bit_length()
            if op == 'cttz':
                return w if x == 0 else (x & -x).bit_length() - 1
        raise Unsupported('intrinsic ' + op)

    def overflow(self, op, a, b, w, st):
        if op == 'uadd':
            s = add(a, b, w)
            return Agg([s, ult(s, a, w)])
        if op == 'usub':
            return Agg([sub(a, b, w), ult(a, b, w)])
        if op == 'umul':
            p = mul(a, b, w)
            if type(a) is not T and type(b) is not T:
                return Agg([p, 1 if a * b >> w else 0])
            if type(a) is not T:
                a, b = b, a
            if type(b) is not T:
                if b == 0:
                    return Agg([0, 0])
                return Agg([p, ult(mask(w) // b, a, w)])
            pp = mul(tm.zext(a, w, 2 * w), tm.zext(b, w, 2 * w), 2 * w)
            return Agg([p, tm.ne(ext(pp, w, w), 0, w)])
        if type(a) is not T and type(b) is not T:
            sa, sb = tm._sgn(a, w), tm._sgn(b, w)
            r = {'sadd': sa + sb, 'ssub': sa - sb, 'smul': sa * sb}[op]
            return Agg([r & mask(w), 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1])
        if op in ('sadd', 'ssub'):
            x, y = tm.sext(a, w, w + 1), tm.sext(b, w, w + 1)
            r = (add if op == 'sadd' else sub)(x, y, w + 1)
            lo = ext(r, 0, w)
            return Agg([lo, tm.ne(ext(r, w, 1), ext(r, w - 1, 1), 1)])
        if op == 'smul' and (type(b) is not T or type(a) is not T):
            if type(a) is not T:
                a, b = b, a
            x = tm.sext(a, w, 2 * w)
            r = mul(x, b if b < 1 << (w - 1) else (b - (1 << w)) & mask(2 * w), 2 * w)
            lo = ext(r, 0, w)
            return Agg([lo, tm.ne(r, tm.sext(lo, w, 2 * w), 2 * w)])
        raise Unsupported(op)

    # ------------------------------------------------------------ memcpy / memset
    def memcpy(self, st, d, s, n):
        e = self.e
        if type(n) is T:
            n = e.concretize(st, n)
        if type(n) is not T and n == 0:
            return
        if type(n) is T:
            # a zero-length copy needs no valid pointers
            z, nz = e.feasible(st, eq(n, 0, 64))
            if z is not None and (type(e.norm(st, d)) is not Ptr or type(e.norm(st, s)) is not Ptr):
                raise Fork(eq(n, 0, 64))
        d = e.deref(st, d)
        s = e.deref(st, s)
        so = e.getobj(st, s.obj)
        do = e.getobj(st, d.obj)
        soff = e.norm(st, s.off)
        doff = e.norm(st, d.off)
        if do.ro:
            e.require(st, eq(n, 0, 64), 'ub', 'write to read-only %s' % do.name)
            return
        e.in_bounds(st, so, soff, n)
        e.in_bounds(st, do, doff, n)
        if type(doff) is T:
            doff = e.concretize(st, doff)
        if type(soff) is T and so.arr is None:
            soff = e.concretize(st, soff)
        if type(n) is not T and type(doff) is not T and (type(soff) is not T or so.arr is not None):
            if so.arr is not None:
                es = e.arr_bytes(so, soff, n)
            else:
                es = so.data[soff:soff + n]
            if d.obj not in st.mem:
                st.mem[d.obj] = e.global_objs[d.obj].clone()
            st.wobj(d.obj).data[doff:doff + n] = es
            return
        if type(do.size) is T or do.size > 8192:
            raise Unsupported('symbolic memcpy into %s' % do.name)
        for q in (n, doff, soff):
            if type(q) is T:
                e.note_addr(st, q)
        if type(soff) is T and so.arr is None:
            # choose the source window first
            if type(n) is not T:
                es = self.window(st, so, soff, n)
                srcb = lambda i: es[i]
                maxn = n
            else:
                raise Unsupported('memcpy with symbolic source offset and length')
        elif so.arr is not None:
            srcb = None
        else:
            srcb = None
        lo, cap = e.written(st, doff, n, do.size)
        st.log = st.log + (None,)
        o = st.wobj(d.obj)
        old = list(o.data)
        new = o.data
        if type(doff) is not T:
            for i in range(doff, cap):
                j = i - doff
                c = ult(j, n, 64)
                c = e.norm(st, c)
                if type(c) is not T and not c:
                    if type(n) is not T:
                        break
                    continue
                if so.arr is not None:
                    b = sel(so.arr, add(soff, j, 64))
                elif srcb is not None:
                    b = srcb(j)
                else:
                    if soff + j >= len(so.data):
                        break
                    b = so.data[soff + j]
                    if b is None:
                        continue
                    b = entry_byte(b)
                    if b is None:
                        raise Unsupported('symbolic memcpy of pointers')
                self.put(new, old, i, c, b)
            return
        # symbolic destination offset
        for i in range(lo, cap):
            j = sub(i, doff, 64)
            c = e.norm(st, ult(j, n, 64))
            if type(c) is not T and not c:
                continue
            if so.arr is not None:
                b = sel(so.arr, add(soff, j, 64))
            else:
                ln = len(so.data) - soff if srcb is None else n
                b = None
                for k in range(min(ln, cap)):
                    x = srcb(k) if srcb is not None else entry_byte(so.data[soff + k]) if so.data[soff + k] is not None else None
                    if x is None:
                        if srcb is None and so.data[soff + k] is None:
                            continue
                        raise Unsupported('symbolic memcpy of pointers')
                    ck = eq(j, k, 64)
                    if type(ck) is not T and not ck:
                        continue
                    b = x if b is None else ite(ck, x, b, 8)
                if b is None:
                    continue
            self.put(new, old, i, c, b)

    def put(self, new, old, i, c, b):
        x = old[i]
        if x is None:
            x = b
        else:
            x = entry_byte(x)
            if x is None:
                raise Unsupported('symbolic write over pointer')
        y = ite(c, b, x, 8)
        new[i] = y if type(y) is int else (y, 0)

    def window(self, st, o, off, n):
        e = self.e
        cands = list(e.candidates(st, o, off, n))
        conds = [eq(off, c, 64) for c in cands]
        out = []
        for i in range(n):
            v = None
            for c, cd in zip(cands, conds):
                x = o.data[c + i]
                b = 0 if x is None else entry_byte(x)
                if b is None:
                    raise Unsupported('symbolic memcpy of pointers')
                v = b if v is None else ite(cd, b, v, 8)
            out.append(v)
        return out

    def memset(self, st, d, v, n):
        e = self.e
        if type(n) is T:
            n = e.concretize(st, n)
        if type(n) is not T and n == 0:
            return
        d = e.deref(st, d)
        do = e.getobj(st, d.obj)
        off = e.norm(st, d.off)
        if do.ro:
            e.require(st, eq(n, 0, 64), 'ub', 'write to read-only')
            return
        e.in_bounds(st, do, off, n)
        if type(off) is T:
            off = e.concretize(st, off)
        if v is UNDEF:
            return
        ent = v if type(v) is int else (v, 0)
        o = st.wobj(d.obj)
        if type(n) is not T and type(off) is not T:
            o.data[off:off + n] = [ent] * n
            return
        e.note_addr(st, off)
        e.note_addr(st, n)
        old = list(o.data)
        lo, hi = e.written(st, off, n, do.size)
        st.log = st.log + (None,)
        for i in range(lo, hi):
            c = e.norm(st, ult(sub(i, off, 64), n, 64))
            if type(c) is not T and not c:
                continue
            self.put(o.data, old, i, c, v)


def ins_type(x):
    op = x[0]
    if op == 'bin':
        return x[3]
    if op == 'cast':
        return x[5]
    if op == 'load':
        return x[2]
    if op in ('alloca', 'gep'):
        return ('p',)
    if op == 'icmp':
        return ('v', x[3][1], ('i', 1)) if x[3][0] == 'v' else ('i', 1)
    if op == 'select':
        return x[4]
    if op == 'phi':
        return x[2]
    if op == 'call':
        return x[2]
    if op == 'extractvalue':
        t = x[2]
        for i in x[4]:
            t = t[1][i] if t[0] == 's' else t[2]
        return t
    if op == 'insertvalue':
        return x[2]
    if op == 'extractelement':
        return x[2][2]
    if op == 'insertelement':
        return x[2]
    if op == 'shuffle':
        return ('v', x[6][1], x[2][2])
    if op == 'freeze':
        return x[2]
    return ('i', 64)


BINF = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': tm.xor,
        'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr, 'udiv': tm.udiv, 'urem': tm.urem}
