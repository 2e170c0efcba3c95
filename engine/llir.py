"""Parser for the textual LLVM IR that rustc emits (the subset in use)."""
import re

TOK = re.compile(r'''\s+|;[^\n]*|(c"[^"]*")|("[^"]*")|([%@$](?:"[^"]*"|[-\w.$]+))|(![\w.]*)|(#\d+)|(-?0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[-+]?\d+)?|-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.|[^\s])''')

# token kinds: 1 cstr 2 str 3 name 4 meta 5 attrgroup 6 num 7 word 8 punct


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        k = m.lastindex
        if k is None:
            continue
        out.append((k, m.group(k)))
    return out


class P(object):
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise Unsupported('parse: expected %r got %r at ...%s' % (x, self.peek(), ' '.join(a[1] for a in self.t[max(0, self.i - 8):self.i + 4])))
        self.i += 1

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # types: ('i',w) ('p',) ('v',n,t) ('a',n,t) ('s',[t],packed) ('void',) ('f',w)
    def type(self):
        t = self.type0()
        while self.peek() == '(' and False:
            pass
        return t

    def type0(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            return ('p',)
        if x[0] == 'i' and x[1:].isdigit():
            return ('i', int(x[1:]))
        if x == 'void':
            return ('void',)
        if x == 'float':
            return ('f', 32)
        if x == 'double':
            return ('f', 64)
        if x == 'label':
            return ('label',)
        if x == 'metadata':
            return ('metadata',)
        if x == 'token':
            return ('token',)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type0()
            self.expect(']')
            return ('a', n, t)
        if x == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct_body()
                self.expect('>')
                return ('s', r, True)
            n = int(self.next())
            self.expect('x')
            t = self.type0()
            self.expect('>')
            return ('v', n, t)
        if x == '{':
            return ('s', self._struct_body(), False)
        if x[0] == '%':
            return self.mod.named_type(x)
        raise Unsupported('type ' + x)

    def _struct_body(self):
        r = []
        if self.eat('}'):
            return tuple(r)
        while True:
            r.append(self.type0())
            if self.eat('}'):
                return tuple(r)
            self.expect(',')

    def skip_attrs(self):
        """skip parameter/return attributes"""
        while True:
            k = self.kind()
            x = self.peek()
            if k == 7 and x in ATTRS:
                self.next()
                if x == 'align' and self.kind() == 6:
                    self.next()
                elif self.peek() == '(':
                    self.skip_parens()
            elif k == 2:
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return

    # operand of a known type -> operand object
    def operand(self, ty):
        k = self.kind()
        x = self.next()
        if k == 3:
            if x[0] == '%':
                return x            # register: plain str
            return Const('global', ty, x)
        if k == 6:
            if ty[0] == 'f':
                raise Unsupported('float constant')
            return Const('int', ty, int(x) & ((1 << ty[1]) - 1))
        if k == 1:
            return Const('bytes', ty, unescape(x[2:-1]))
        if x == 'true':
            return Const('int', ty, 1)
        if x == 'false':
            return Const('int', ty, 0)
        if x == 'null':
            return Const('null', ty, None)
        if x in ('undef', 'poison'):
            return Const('undef', ty, None)
        if x == 'zeroinitializer':
            return Const('zero', ty, None)
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.operand(t)
            self.expect(')')
            return Const('agg', ty, [v] * ty[1])
        if x == '<':
            if self.peek() == '{':
                self.next()
                r = self._agg('}')
                self.expect('>')
                return Const('agg', ty, r)
            return Const('agg', ty, self._agg('>'))
        if x == '{':
            return Const('agg', ty, self._agg('}'))
        if x == '[':
            return Const('agg', ty, self._agg(']'))
        if x == 'getelementptr':
            while self.peek() != '(':
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.operand(t)))
                if self.eat(')'):
                    break
                self.expect(',')
            return Const('gep', ty, (bt, ops))
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            self.expect('(')
            t = self.type()
            v = self.operand(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return Const('cast', ty, (x, t, v, t2))
        if x in ('sub', 'add'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            t = self.type()
            a = self.operand(t)
            self.expect(',')
            t = self.type()
            b = self.operand(t)
            self.expect(')')
            return Const('binop', ty, (x, a, b))
        raise Unsupported('operand %r' % x)

    def _agg(self, close):
        r = []
        if self.eat(close):
            return r
        while True:
            t = self.type()
            r.append(self.operand(t))
            if self.eat(close):
                return r
            self.expect(',')

    def typed(self):
        t = self.type()
        self.skip_attrs()
        return t, self.operand(t)


class Const(object):
    __slots__ = ('k', 'ty', 'v', 'cache')

    def __init__(self, k, ty, v):
        self.k = k
        self.ty = ty
        self.v = v
        self.cache = None


ATTRS = set('''noalias nofree noundef nonnull readonly readnone writeonly captures dereferenceable
dereferenceable_or_null align sret byval range zeroext signext inreg returned immarg nocapture dead_on_unwind
dead_on_return writable initializes allocalign swiftself nest noext inalloca elementtype nofpclass allocptr
unnamed_addr local_unnamed_addr fastcc ccc coldcc dso_local hidden internal private available_externally
linkonce_odr external preallocated nneg'''.split())


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


def sizeof(t):
    k = t[0]
    if k == 'i':
        return (max(t[1], 8) + 7) // 8 if t[1] <= 64 else (t[1] + 63) // 64 * 8
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'v':
        return t[1] * sizeof(t[2])
    if k == 'a':
        return t[1] * sizeof(t[2])
    if k == 's':
        if t[2]:
            return sum(sizeof(x) for x in t[1])
        o = 0
        al = 1
        for x in t[1]:
            a = alignof(x)
            al = max(al, a)
            o = (o + a - 1) // a * a + sizeof(x)
        return (o + al - 1) // al * al
    raise Unsupported('sizeof %r' % (t,))


def alignof(t):
    k = t[0]
    if k == 'i':
        n = sizeof(t)
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'v':
        return sizeof(t)
    if k == 'a':
        return alignof(t[2])
    if k == 's':
        return 1 if t[2] else max([alignof(x) for x in t[1]] or [1])
    raise Unsupported('alignof')


def field_off(t, i):
    if t[0] in ('a', 'v'):
        return i * sizeof(t[2])
    if t[2]:
        return sum(sizeof(x) for x in t[1][:i])
    o = 0
    for j, x in enumerate(t[1]):
        a = alignof(x)
        o = (o + a - 1) // a * a
        if j == i:
            return o
        o += sizeof(x)


class Module(object):
    def __init__(self, path, name):
        self.name = name
        self.path = path
        self.text = open(path).read()
        self.funcs = {}     # name -> (start, end) offsets / parsed Function
        self.decls = {}
        self.globals = {}
        self.types = {}
        self.attrs = {}
        self._index()

    def _index(self):
        t = self.text
        for m in re.finditer(r'^define [^\n]*?(@(?:"[^"]*"|[-\w.$]+))\(', t, re.M):
            e = t.find('\n}', m.start())
            self.funcs[m.group(1)] = (m.start(), e + 2)
        for m in re.finditer(r'^(@(?:"[^"]*"|[-\w.$]+)) = ([^\n]*)$', t, re.M):
            self.globals[m.group(1)] = m.group(2)
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w.$]+)) = type ([^\n]*)$', t, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^attributes (#\d+) = \{([^\n]*)\}$', t, re.M):
            self.attrs[m.group(1)] = m.group(2)
        for m in re.finditer(r'^declare ([^\n]*?)(@(?:"[^"]*"|[-\w.$]+))\(([^\n]*)$', t, re.M):
            self.decls[m.group(2)] = m.group(0)

    def named_type(self, n):
        d = self.types.get(n)
        if d is None:
            raise Unsupported('named type ' + n)
        if isinstance(d, str):
            d = P(tokenize(d), self).type()
            self.types[n] = d
        return d

    def function(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = Function(self, name, self.text[f[0]:f[1]])
            self.funcs[name] = f
        return f

    def global_def(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, str):
            g = self._parse_global(g)
            self.globals[name] = g
        return g

    def _parse_global(self, s):
        p = P(tokenize(s), self)
        mutable = True
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                mutable = x == 'global'
                p.next()
                break
            if x == 'alias':
                p.next()
                ty = p.type()
                p.expect(',')
                t = p.type()
                return ('alias', p.operand(t))
            if x == 'external' or x == 'thread_local':
                pass
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        ty = p.type()
        init = None
        if p.peek() not in (',', None):
            init = p.operand(ty)
        align = alignof(ty)
        while p.peek() is not None:
            if p.next() == 'align':
                align = int(p.next())
        return ('var', ty, init, align, mutable)


class Function(object):
    """blocks: label -> list of instruction tuples"""

    def __init__(self, mod, name, text):
        self.mod = mod
        self.name = name
        head, _, body = text.partition('\n')
        self._head(head)
        self._body(body)
        self._order()

    def _head(self, head):
        m = self.mod
        at = head.index(self.name + '(')
        pre = P(tokenize(head[len('define'):at]), m)
        # return type: skip linkage/attrs
        while True:
            pre.skip_attrs()
            try:
                save = pre.i
                self.ret = pre.type()
                break
            except Unsupported:
                pre.i = save
                pre.next()
                if pre.peek() == '(':
                    pre.skip_parens()
        p = P(tokenize(head[at + len(self.name):]), m)
        p.expect('(')
        self.params = []
        self.sret = None
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')')
                    break
                t = p.type()
                i0 = p.i
                p.skip_attrs()
                n = p.next()
                self.params.append((t, n))
                if p.eat(')'):
                    break
                p.expect(',')
        self.features = set()
        self.noreturn = False
        while p.peek() is not None:
            k = p.kind()
            x = p.next()
            if k == 5:
                a = m.attrs.get(x, '')
                mm = re.search(r'"target-features"="([^"]*)"', a)
                if mm:
                    self.features |= set(f[1:] for f in mm.group(1).split(',') if f.startswith('+'))
                if re.search(r'\bnoreturn\b', a):
                    self.noreturn = True

    def _body(self, body):
        self.blocks = {}
        cur = None
        lines = body.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] == '}' or l[0] == ';':
                continue
            if l[0] != ' ':
                lab = l[:l.index(':')] if not l.startswith('"') else l[:l.index('":') + 1]
                cur = []
                self.blocks['%' + lab] = cur
                continue
            if cur is None:
                cur = []
                self.blocks['%0'] = cur
            # multi-line instructions: switch [...], invoke/landingpad continuation
            s = l
            if s.rstrip().endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i]
                    i += 1
                s += ' ' + lines[i]
                i += 1
            while i < n and (lines[i].startswith('          ') or lines[i].startswith('    ') and lines[i].strip().startswith('to label')):
                s += ' ' + lines[i]
                i += 1
            ins = self._ins(s)
            if ins is not None:
                cur.append(ins)
        self.entry = next(iter(self.blocks))

    def _ins(self, s):
        p = P(tokenize(s), self.mod)
        dest = None
        if p.kind() == 3 and p.t[1][1] == '=':
            dest = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        f = getattr(self, 'i_' + op, None)
        if f is not None:
            return f(p, dest)
        if op in BIN:
            flags = []
            while p.kind() == 7 and p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.append(p.next())
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            return ('bin', dest, op, t, a, b, tuple(flags))
        if op in CASTS:
            while p.kind() == 7 and p.peek() in ('nuw', 'nsw', 'nneg'):
                p.next()
            t = p.type()
            a = p.operand(t)
            p.expect('to')
            return ('cast', dest, op, t, a, p.type())
        raise Unsupported('instruction ' + s.strip()[:100])

    def i_alloca(self, p, d):
        p.eat('inalloca')
        t = p.type()
        n = 1
        al = alignof(t)
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
            else:
                tt = p.type()
                n = p.operand(tt)
                if not isinstance(n, Const):
                    raise Unsupported('dynamic alloca')
                n = n.v
        return ('alloca', d, sizeof(t) * n, al)

    def i_load(self, p, d):
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.operand(pt)
        al = alignof(t)
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        return ('load', d, t, a, al)

    def i_store(self, p, d):
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        pt = p.type()
        a = p.operand(pt)
        al = alignof(t)
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        return ('store', None, t, v, a, al)

    def i_getelementptr(self, p, d):
        while p.kind() == 7 and p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
        bt = p.type()
        p.expect(',')
        pt = p.type()
        a = p.operand(pt)
        idx = []
        while p.eat(','):
            if p.kind() == 4:
                break
            t = p.type()
            idx.append((t, p.operand(t)))
        return ('gep', d, bt, a, idx)

    def i_br(self, p, d):
        if p.eat('label'):
            return ('br', None, p.next())
        t = p.type()
        c = p.operand(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return ('cbr', None, c, a, p.next())

    def i_switch(self, p, d):
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        p.expect('label')
        dflt = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            tt = p.type()
            c = p.operand(tt)
            p.expect(',')
            p.expect('label')
            cases.append((c.v, p.next()))
        return ('switch', None, t, v, dflt, cases)

    def i_ret(self, p, d):
        t = p.type()
        if t[0] == 'void':
            return ('ret', None, t, None)
        return ('ret', None, t, p.operand(t))

    def i_unreachable(self, p, d):
        return ('unreachable', None)

    def i_icmp(self, p, d):
        p.eat('samesign')
        pred = p.next()
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        return ('icmp', d, pred, t, a, p.operand(t))

    def i_select(self, p, d):
        t = p.type()
        c = p.operand(t)
        p.expect(',')
        t1 = p.type()
        a = p.operand(t1)
        p.expect(',')
        t2 = p.type()
        return ('select', d, t, c, t1, a, p.operand(t2))

    def i_phi(self, p, d):
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.operand(t)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            inc.append((lab, v))
            if not p.eat(',') or p.kind() == 4:
                break
        return ('phi', d, t, inc)

    def i_extractvalue(self, p, d):
        t = p.type()
        v = p.operand(t)
        idx = []
        while p.eat(','):
            if p.kind() != 6:
                break
            idx.append(int(p.next()))
        return ('extractvalue', d, t, v, idx)

    def i_insertvalue(self, p, d):
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        x = p.operand(t2)
        idx = []
        while p.eat(','):
            if p.kind() != 6:
                break
            idx.append(int(p.next()))
        return ('insertvalue', d, t, v, t2, x, idx)

    def i_extractelement(self, p, d):
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        return ('extractelement', d, t, v, p.operand(t2))

    def i_insertelement(self, p, d):
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        x = p.operand(t2)
        p.expect(',')
        t3 = p.type()
        return ('insertelement', d, t, v, x, p.operand(t3))

    def i_shufflevector(self, p, d):
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        t2 = p.type()
        b = p.operand(t2)
        p.expect(',')
        t3 = p.type()
        m = p.operand(t3)
        return ('shuffle', d, t, a, b, m, t3)

    def i_freeze(self, p, d):
        t = p.type()
        return ('freeze', d, t, p.operand(t))

    def i_fence(self, p, d):
        return None

    def i_landingpad(self, p, d):
        return ('landingpad', d)

    def i_resume(self, p, d):
        return ('resume', None)

    def i_call(self, p, d, invoke=False):
        while True:
            p.skip_attrs()
            if p.kind() == 7 and p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn', 'cc'):
                p.next()
                continue
            break
        rt = p.type()
        # function type form: rt (args...) @f
        if p.peek() == '(':
            p.skip_parens()
        k = p.kind()
        callee = None
        if p.peek() == 'asm':
            raise Unsupported('inline asm')
        if k == 3:
            x = p.next()
            callee = x if x[0] == '%' else Const('global', ('p',), x)
        else:
            callee = p.operand(('p',))
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                if t[0] == 'metadata':
                    # skip metadata operand
                    dd = 0
                    while not (dd == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '([{':
                            dd += 1
                        if x in ')]}':
                            dd -= 1
                    args.append((t, None))
                else:
                    p.skip_attrs()
                    args.append((t, p.operand(t)))
                if p.eat(')'):
                    break
                p.expect(',')
        normal = None
        noret = False
        while p.peek() is not None:
            kk = p.kind()
            x = p.next()
            if kk == 5 and re.search(r'\bnoreturn\b', self.mod.attrs.get(x, '')):
                noret = True
            if x == 'to' and invoke:
                p.expect('label')
                normal = p.next()
        return ('call', d, rt, callee, args, normal, noret)

    def i_invoke(self, p, d):
        return self.i_call(p, d, True)

    # ---------------------------------------------------------- CFG
    def succs(self, lab):
        i = self.blocks[lab][-1]
        if i[0] == 'br':
            return [i[2]]
        if i[0] == 'cbr':
            return [i[3], i[4]]
        if i[0] == 'switch':
            return [i[4]] + [c[1] for c in i[5]]
        if i[0] == 'call' and i[5]:
            return [i[5]]
        return []

    def _order(self):
        """Bourdoncle weak topological order: self.pos[label], self.heads, self.comp[label] = stack of loop heads"""
        succ = {b: self.succs(b) for b in self.blocks}
        dfn = {b: 0 for b in self.blocks}
        num = [0]
        stack = []
        INF = 1 << 60
        self.heads = set()

        def visit(v, part):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = num[0]
            loop = False
            for w in succ[v]:
                m = visit(w, part) if dfn[w] == 0 else dfn[w]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    sub = []
                    for w in succ[v]:
                        if dfn[w] == 0:
                            visit(w, sub)
                    self.heads.add(v)
                    part.insert(0, (v, sub))
                else:
                    part.insert(0, v)
            return head
        part = []
        visit(self.entry, part)
        self.pos = {}
        self.comp = {}

        def flat(part, heads):
            for x in part:
                if isinstance(x, tuple):
                    v, sub = x
                    hs = heads + (v,)
                    self.pos[v] = len(self.pos)
                    self.comp[v] = hs
                    flat(sub, hs)
                else:
                    self.pos[x] = len(self.pos)
                    self.comp[x] = heads
        flat(part, ())
        self._liveness(succ)

    def _uses(self, ins):
        out = []

        def u(x):
            if type(x) is str:
                if x[0] == '%':
                    out.append(x)
            elif type(x) in (tuple, list):
                for y in x:
                    u(y)
        op = ins[0]
        if op == 'bin':
            u((ins[4], ins[5]))
        elif op == 'cast':
            u(ins[4])
        elif op == 'load':
            u(ins[3])
        elif op == 'store':
            u((ins[3], ins[4]))
        elif op == 'gep':
            u(ins[3])
            u([x[1] for x in ins[4]])
        elif op == 'cbr':
            u(ins[2])
        elif op == 'switch':
            u(ins[3])
        elif op == 'ret':
            u(ins[3])
        elif op == 'icmp':
            u((ins[4], ins[5]))
        elif op == 'select':
            u((ins[3], ins[5], ins[6]))
        elif op == 'extractvalue':
            u(ins[3])
        elif op == 'insertvalue':
            u((ins[3], ins[5]))
        elif op == 'extractelement':
            u((ins[3], ins[4]))
        elif op == 'insertelement':
            u((ins[3], ins[4], ins[5]))
        elif op == 'shuffle':
            u((ins[3], ins[4]))
        elif op == 'freeze':
            u(ins[3])
        elif op == 'call':
            u(ins[3])
            u([x[1] for x in ins[4]])
        return out

    def _liveness(self, succ):
        use = {}
        defs = {}
        phis = {}
        for b, l in self.blocks.items():
            us = set()
            ds = set()
            for ins in l:
                if ins[0] == 'phi':
                    for lab, v in ins[3]:
                        if type(v) is str:
                            phis.setdefault(lab, set()).add(v)
                    ds.add(ins[1])
                    continue
                for x in self._uses(ins):
                    if x not in ds:
                        us.add(x)
                if ins[1]:
                    ds.add(ins[1])
            use[b] = us
            defs[b] = ds
        live = {b: set() for b in self.blocks}
        ch = True
        order = sorted(self.pos, key=lambda b: -self.pos[b])
        while ch:
            ch = False
            for b in order:
                o = set(phis.get(b, ()))
                for s in succ[b]:
                    o |= live[s]
                i = use[b] | (o - defs[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        # live on entry; phi destinations are set on the edge, so they are live too
        for b, l in self.blocks.items():
            for ins in l:
                if ins[0] == 'phi':
                    live[b].add(ins[1])
        self.live = live


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CASTS = set('zext sext trunc bitcast ptrtoint inttoptr'.split())


class Program(object):
    def __init__(self, paths):
        self.mods = [Module(p, p.rsplit('/', 1)[-1].rsplit('-', 1)[0]) for p in paths]
        self.where = {}
        for m in self.mods:
            for f in m.funcs:
                self.where.setdefault(f, m)

    def find(self, name, mod=None):
        """-> Function or None (external)"""
        if mod is not None and name in mod.funcs:
            return mod.function(name)
        m = self.where.get(name)
        return m.function(name) if m else None

    def names(self):
        return self.where

    def find_global(self, name, mod):
        g = mod.global_def(name) if mod is not None else None
        if g is not None and not (g[0] == 'var' and g[2] is None):
            return mod, g
        for m in self.mods:
            if m is not mod and name in m.globals:
                g2 = m.global_def(name)
                if not (g2[0] == 'var' and g2[2] is None):
                    return m, g2
        return mod, g
