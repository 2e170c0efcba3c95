"""A model of core::fmt: what is not in the IR of the crates (it lives in the precompiled core).
The text that reaches the outermost writer is kept in state.out as pieces:
('s', bytes...) literal or symbolic bytes, ('n', kind, value, width) a number in some format."""
import re
import subprocess
import terms as tm
from terms import T, add, ult, ite, lshr, and_, ext
import interp as I
from interp import Ptr, Fn, UNDEF, Unsupported

_dem = {}


def demangle(n):
    if n not in _dem:
        r = subprocess.run(['c++filt', n.lstrip('@')], stdout=subprocess.PIPE)
        _dem[n] = re.sub(r'\[[0-9a-f]{8,}\]', '', r.stdout.decode().strip())
    return _dem[n]


class Model(object):
    def __init__(self, e, keep=True):
        self.e = e
        self.keep = keep            # numbers may be kept as pieces when they go to the outermost writer
        self.sink = None
        self.builders = {}
        e.fmt_hook = self

    # ------------------------------------------------------------ engine interface
    def __call__(self, e, name, x, vals, st, fr):
        d = demangle(name)
        if 'fmt' not in d and 'char' not in d:
            return None
        self.fr = fr
        if d == 'core::fmt::write':
            w = (vals[0], vals[1])
            if self.sink is None:
                self.sink = w
            return self.write(st, w, vals[2], vals[3])
        if d.startswith('<core::fmt::Formatter>::') or d.startswith('core::fmt::Formatter::'):
            return self.formatter(st, d.rsplit('::', 1)[1], vals, x)
        m = re.match(r'<(.*) as core::fmt::(?:num::)?(Display|Debug|LowerHex|UpperHex|Octal|Binary)>::fmt$', d) or re.match(r'<(.*) as core::fmt::num::(imp|.*)>::fmt$', d)
        if m and m.group(2) in ('Display', 'Debug', 'LowerHex', 'UpperHex'):
            return self.prim(st, m.group(1), m.group(2), vals)
        m = re.match(r'<core::fmt::builders::(Debug\w+)>::(\w+)$', d)
        if m:
            return self.builder(st, m.group(1), m.group(2), vals, x)
        raise Unsupported('formatting function ' + d)

    # ------------------------------------------------------------ output
    def emit(self, st, w, piece):
        """-> states"""
        if self.keep and self.same(w, self.sink):
            out = st.out
            if piece[0] == 's':
                if not piece[1]:
                    return [st]
                if out and out[-1][0] == 's':
                    out = out[:-1] + (('s', out[-1][1] + tuple(piece[1])),)
                else:
                    out = out + (('s', tuple(piece[1])),)
            else:
                out = out + (piece,)
            st.out = out
            return [st]
        if piece[0] != 's':
            raise Unsupported('a formatted number is written to a buffer')
        return self.call_write(st, w, piece[1])

    def same(self, a, b):
        return b is not None and type(a[0]) is Ptr and type(b[0]) is Ptr and a[0].obj == b[0].obj and a[0].off == b[0].off

    def call_write(self, st, w, bs):
        e = self.e
        f = e.load(st, Ptr(w[1].obj, add(w[1].off, 24, 64)), ('p',), 8)
        es = []
        for b in bs:
            es += e.to_entries(b, ('i', 8))
        oid = e.buffer(st, es, 1, 'text', 'heap') if es else None
        p = Ptr(oid, 0) if oid is not None else 1
        r = self.invoke(st, f, [w[0], p, len(bs)])
        return [s for s, _ in r]

    def invoke(self, st, f, args):
        e = self.e
        if type(f) is not Fn:
            raise Unsupported('unknown formatting function')
        fn = e.prog.find(f.name, getattr(self.fr.fn, 'mod', None)) if f.name else None
        if fn is None:
            r = self(e, f.name, None, args, st, self.fr)
            if r is None:
                raise Unsupported('external ' + demangle(f.name))
            return r
        return e.call_fn(fn, st, args)

    def text(self, st, p, n):
        e = self.e
        if type(n) is T:
            n = e.norm(st, n)
            if type(n) is T:
                n = e.concretize(st, n)
        if type(n) is T:
            raise Unsupported('string of symbolic length')
        if n == 0:
            return ()
        return tuple(0 if b is UNDEF else b for b in e.load(st, p, ('a', n, ('i', 8)), 1).e)

    # ------------------------------------------------------------ core::fmt::write
    def write(self, st, w, tp, args):
        e = self.e
        if type(args) is int or (type(args) is Ptr and args.obj is None):
            n = args if type(args) is int else args.off
            if n & 1:
                return [(s, 0) for s in self.emit(st, w, ('s', self.text(st, tp, n >> 1)))]
        sts = [st]
        pos = 0
        k = 0

        def rd(n):
            v = [e.load(st, Ptr(tp.obj, add(tp.off, pos + i, 64)), ('i', 8), 1) for i in range(n)]
            if any(type(x) is T for x in v):
                raise Unsupported('symbolic format template')
            return int.from_bytes(bytes(v), 'little')
        while True:
            n = rd(1)
            pos += 1
            if n == 0:
                break
            if n <= 0x80:
                if n == 0x80:
                    n = rd(2)
                    pos += 2
                bs = tuple(e.load(st, Ptr(tp.obj, add(tp.off, pos, 64)), ('a', n, ('i', 8)), 1).e)
                pos += n
                sts = [y for x in sts for y in self.emit(x, w, ('s', bs))]
                continue
            flags, width, prec = 0x60000020, 0, 0
            if n != 0xc0:
                if n & 1:
                    flags = rd(4)
                    pos += 4
                if n & 2:
                    width = rd(2)
                    pos += 2
                if n & 4:
                    prec = rd(2)
                    pos += 2
                if n & 8:
                    k = rd(2)
                    pos += 2
                if n & 48:
                    raise Unsupported('dynamic width')
            out = []
            for x in sts:
                a = Ptr(args.obj, add(args.off, 16 * k, 64))
                v = e.load(x, a, ('p',), 8)
                f = e.load(x, Ptr(a.obj, add(a.off, 8, 64)), ('p',), 8)
                fm = self.formatter_obj(x, w, flags, width, prec)
                out += [s for s, _ in self.invoke(x, f, [v, fm])]
            sts = out
            k += 1
        return [(s, 0) for s in sts]

    def formatter_obj(self, st, w, flags=0x60000020, width=0, prec=0):
        e = self.e
        es = e.to_entries(w[0], ('p',)) + e.to_entries(w[1], ('p',))
        es += e.to_entries(flags, ('i', 32)) + e.to_entries(width, ('i', 16)) + e.to_entries(prec, ('i', 16))
        return Ptr(e.buffer(st, es, 8, 'Formatter', 'heap'), 0)

    def opts(self, st, fm):
        e = self.e
        at = lambda o, t: e.load(st, Ptr(fm.obj, add(fm.off, o, 64)), t, 1)
        return (at(0, ('p',)), at(8, ('p',))), at(16, ('i', 32)), at(20, ('i', 16)), at(22, ('i', 16))

    # ------------------------------------------------------------ primitives
    def prim(self, st, ty, tr, vals):
        e = self.e
        if ty.strip() == 'str':
            if tr != 'Display':
                raise Unsupported('quoted text')
            return self.formatter(st, 'pad', [vals[2], vals[0], vals[1]], None)
        w, flags, width, prec = self.opts(st, vals[1])
        plain = flags == 0x60000020
        ty = ty.strip()
        if ty == 'bool':
            v = e.load(st, vals[0], ('i', 8), 1)
            return [(s, 0) for s in self.emit(st, w, ('n', 'bool', v, 8))]
        m = re.match(r'([ui])(8|16|32|64|128|size)$', ty)
        if not m:
            raise Unsupported('formatting of ' + ty)
        bits = 64 if m.group(2) == 'size' else int(m.group(2))
        v = e.load(st, vals[0], ('i', bits), 1)
        if tr == 'Debug':
            tr = 'LowerHex' if flags & (1 << 25) else 'UpperHex' if flags & (1 << 26) else 'Display'
        if tr in ('LowerHex', 'UpperHex') and flags & (1 << 24) and width == bits // 4 and not flags & (1 << 23) and flags & (1 << 27):
            ds = []
            for i in reversed(range(bits // 4)):
                d = tm.zext(ext(v, 4 * i, 4), 4, 8) if type(v) is T else v >> (4 * i) & 15
                ds.append(ite(ult(d, 10, 8), add(d, 48, 8), add(d, 87 if tr == 'LowerHex' else 55, 8), 8))
            return [(s, 0) for s in self.emit(st, w, ('s', tuple(ds)))]
        if type(v) is int and m.group(1) == 'u' and plain:
            return [(s, 0) for s in self.emit(st, w, ('s', tuple((('%d' if tr == 'Display' else '%x' if tr == 'LowerHex' else '%X') % v).encode())))]
        return [(s, 0) for s in self.emit(st, w, ('n', '%s %s %s %s %s' % (m.group(1), tr, flags, width, prec), v, bits))]

    # ------------------------------------------------------------ Formatter
    def formatter(self, st, meth, vals, x):
        e = self.e
        if meth in ('debug_struct', 'debug_tuple', 'debug_list', 'debug_set'):
            # returned through memory: pointer to the result first
            if x is None or x[2] is not None and x[2][0] != 'void':
                raise Unsupported('formatting builder ' + meth)
            w = self.opts(st, vals[1])[0]
            if self.opts(st, vals[1])[1] >> 23 & 1:
                raise Unsupported('alternate format')
            bs = self.text(st, vals[2], vals[3]) if len(vals) > 2 else tuple(b'[' if meth == 'debug_list' else b'{')
            e.store(st, vals[0], vals[1], ('p',), 8)
            e.store(st, Ptr(vals[0].obj, add(vals[0].off, 8, 64)), 0, ('i', 8), 1)
            return [(s, None) for s in self.emit(st, w, ('s', bs))]
        fm = vals[0]
        w, flags, width, prec = self.opts(st, fm)
        if meth in ('write_str', 'pad'):
            if meth == 'pad' and flags & (3 << 27):
                raise Unsupported('padded text')
            out = []
            for s, n in self.lengths(st, vals[2]):
                out += [(y, 0) for y in self.emit(s, w, ('s', self.text(s, vals[1], n)))]
            return out
        if meth == 'write_fmt':
            return self.write(st, w, vals[1], vals[2])
        if meth == 'alternate':
            return [(st, flags >> 23 & 1)]
        m = re.match(r'debug_(struct|tuple)_field(\d)_finish$', meth)
        if m:
            k = int(m.group(2))
            name = self.text(st, vals[1], vals[2])
            a = vals[3:]
            sts = self.emit(st, w, ('s', name))
            fs = []
            for i in range(k):
                if m.group(1) == 'struct':
                    fs.append((self.text(st, a[0], a[1]), a[2], a[3]))
                    a = a[4:]
                else:
                    fs.append((None, a[0], a[1]))
                    a = a[2:]
            return [(s, 0) for s in self.fields(sts, fm, w, m.group(1), fs)]
        if meth == 'debug_struct_fields_finish':
            # f, name, names: &[&str], values: &[&dyn Debug]
            name = self.text(st, vals[1], vals[2])
            k = vals[4]
            fs = []
            for i in range(k):
                at = lambda p, o: e.load(st, Ptr(p.obj, add(p.off, o, 64)), ('p',), 8)
                ln = e.load(st, Ptr(vals[3].obj, add(vals[3].off, 16 * i + 8, 64)), ('i', 64), 8)
                fs.append((self.text(st, at(vals[3], 16 * i), ln), at(vals[5], 16 * i), at(vals[5], 16 * i + 8)))
            return [(s, 0) for s in self.fields(self.emit(st, w, ('s', name)), fm, w, 'struct', fs)]
        raise Unsupported('Formatter::' + meth)

    def lengths(self, st, n):
        """a string of symbolic length: one state for each length"""
        e = self.e
        n = e.norm(st, n) if type(n) is T else n
        if type(n) is not T:
            return [(st, n)]
        out = []
        k = 0
        while True:
            a, b = e.branch(st, tm.eq(n, k, 64))
            if a is not None:
                out.append((a, k))
            if b is None:
                return out
            st = b
            k += 1
            if k > 300:
                raise Unsupported('string of symbolic length')

    def debug(self, st, fm, v, vt):
        f = self.e.load(st, Ptr(vt.obj, add(vt.off, 24, 64)), ('p',), 8)
        return [s for s, _ in self.invoke(st, f, [v, fm])]

    def fields(self, sts, fm, w, kind, fs):
        for i, (nm, v, vt) in enumerate(fs):
            pre = (b' { ' if kind == 'struct' else b'(') if i == 0 else b', '
            if nm is not None:
                pre = tuple(pre) + tuple(nm) + tuple(b': ')
            sts = [y for x in sts for y in self.emit(x, w, ('s', tuple(pre)))]
            sts = [y for x in sts for y in self.debug(x, fm, v, vt)]
        if fs:
            sts = [y for x in sts for y in self.emit(x, w, ('s', tuple(b' }' if kind == 'struct' else b')')))]
        return sts

    def builder(self, st, ty, meth, vals, x):
        e = self.e
        b = vals[0]
        fm = e.load(st, b, ('p',), 8)
        flag = Ptr(b.obj, add(b.off, 8, 64))
        has = e.load(st, flag, ('i', 8), 1)
        w = self.opts(st, fm)[0]
        kind = ty[5:]
        if meth in ('field', 'entry'):
            pre = b', ' if has else {'Struct': b' { ', 'Tuple': b'('}.get(kind, b'')
            if kind == 'Struct':
                pre = tuple(pre) + self.text(st, vals[1], vals[2]) + tuple(b': ')
            v, vt = vals[-2:]
            e.store(st, flag, 1, ('i', 8), 1)
            return [(y, b) for s in self.emit(st, w, ('s', tuple(pre))) for y in self.debug(s, fm, v, vt)]
        if meth == 'finish':
            post = {'Struct': b' }' if has else b'', 'Tuple': b')' if has else b'', 'List': b']', 'Set': b'}'}[kind]
            return [(s, 0) for s in self.emit(st, w, ('s', tuple(post)))]
        raise Unsupported('formatting builder %s::%s' % (ty, meth))
