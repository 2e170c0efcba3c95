"""Parts that run the public interface for what it does besides results: panics, memory faults (P16), and which
code runs on which CPU (P15).  part.only says which of the two; digests, counts and texts are not judged."""
import terms as tm
from terms import add, ule
import interp as I
import single as G
import tree as TR
import many
import kern
import fmtlib
from chk import Trace, Undecided


def only(what, f, /, *a, **kw):
    label = kw.pop('label', None) or f.__name__

    def g(part):
        part.only = what
        return f(part, *a, **kw)
    g.__name__ = label
    return g


class Run(object):
    """calls in sequence; what the program under check lacks (no std: writers) is left out"""

    def __init__(self, part, name, lens=None, **kw):
        self.part = part
        self.sc = part.scenario(name, **kw)
        self.tr = Trace(self.sc, lens=lens)
        self.n = 0

    def do(self, fn, *args):
        sc = self.sc
        if sc.prog.find('@' + fn) is None:
            return
        self.tr.call(fn, *args)
        sc.call(fn, *args)
        if not self.part.panics(sc, '%s: %s' % (sc.name, fn), self.tr.copy()):
            raise Undecided('possible panic')
        if not sc.sts:
            raise Undecided('no state left')
        self.n += 1

    def all(self, calls):
        for c in calls:
            self.do(c[0], *c[1])

    def fmt(self, fn, obj, buf):
        """formatting: the text is thrown away"""
        sc = self.sc
        fmtlib.Model(sc.e)
        sc.sts = [(st.copy(), v) for st, v in sc.sts]
        for st, _ in sc.sts:
            st.out = ()
        self.tr.call(fn, obj, buf, 4096)
        out = []
        for st, v in sc.sts:
            for x, _ in sc.e.run('@' + fn, st, [obj, buf, 4096]):
                x.out = ()
                out.append((x, v))
        if not self.part.panics(sc, '%s: %s' % (sc.name, fn), self.tr.copy()):
            raise Undecided('possible panic')
        if not out:
            raise Undecided('%s does not return' % fn)
        sc.sts = out
        sc.merge()


LENS = ((0, 0), (1, 63), (64, 1), (65, 63), (1, 128), (130, 70), (64, 64))


def history(part, how='new', kind='default', key=None, lastvar=False, portable=False):
    """any history of a sequential state"""
    h = G.Hist(part, how, kind, key, lastvar, clone=True, portable=portable)
    h.ref()
    obls = [h.new_is_R0(), h.step(), h.finalize(False), h.noop('h_s_count', (h.s,)), h.clone()]
    if h.sc.prog.find('@h_s_write'):
        obls += [h.step('h_s_write', True), h.noop('h_s_flush', (h.s,), 0)]
    if lastvar:
        obls.append(h.setlast())
    h.obligations(obls)
    part.bounds.append('sequential states: total message length <= 2^56 bytes, any history of calls, any address alignment')


def sequence(part, how='new', kind='default', key=None, lens=LENS, portable=False):
    """fixed lengths; parameters and contents symbolic"""
    n = 0
    for a, b in lens:
        r = Run(part, 'calls %s %d %d' % (how, a, b), {'m': a + b})
        sc = r.sc
        par = G.Params(sc, '', kind, key)
        m = sc.arr('m', a + b)
        s, t, h, g, p, q = sc.obj('s', 'State'), sc.obj('t', 'State'), sc.obj('h', 'Hash'), sc.obj('g', 'Hash'), sc.obj('p', 'Params'), sc.obj('q', 'Params')
        if how in ('new', 'default'):
            r.do('h_s_' + how, s)
        else:
            r.all(par.build(p))
            r.do('h_p_clone', p, q)
            r.do('h_p_to_state', q, s)
        if portable:
            r.do('h_s_force_portable', s)
        r.do('h_s_finalize', s, h)
        r.do('h_s_update', s, m, a)
        r.do('h_s_count', s)
        r.do('h_s_clone', s, t)
        r.do('h_s_set_last_node', t, True)
        r.do('h_s_finalize', t, h)
        r.do('h_s_write', t, I.Ptr(m.obj, a), b)
        r.do('h_s_flush', t)
        r.do('h_s_update', s, I.Ptr(m.obj, a), b)
        r.do('h_s_finalize', s, h)
        r.do('h_s_finalize', t, g)
        r.do('h_s_count', t)
        n += r.n
    part.bounds.append('sequential states (%s): calls with two inputs of lengths %s; parameters, key and contents symbolic' % (how, lens))
    part.ok('%d calls on sequential states (%s%s)' % (n, how, ', keyed' if key else ''))


def values(part):
    """hash values, formatting, one-shot function"""
    r = Run(part, 'hash values', {'m': 70})
    sc = r.sc
    hl = tm.var('hl', 64)
    sc.assume(ule(1, hl, 64), ule(hl, 32, 64))
    m = sc.arr('m', 70)
    k = sc.length('yn')
    y = sc.arr('y', k)
    h, g, s, p = sc.obj('h', 'Hash'), sc.obj('g', 'Hash'), sc.obj('s', 'State'), sc.obj('p', 'Params')
    buf = sc.obj('buf', (4096, 1))
    r.do('h_blake2s', m, 70, g)
    r.do('h_p_default', p)
    r.do('h_p_hash_length', p, hl)
    r.do('h_p_to_state', p, s)
    r.do('h_s_update', s, m, 70)
    r.fmt('h_s_fmt', s, buf)
    r.do('h_s_finalize', s, h)
    r.do('h_h_clone', g, g)
    r.do('h_h_len', h)
    r.do('h_h_ptr', h)
    r.do('h_h_aslen', h)
    r.do('h_h_asptr', h)
    # contents do not matter from here on
    import hashes
    for fn, args in (('h_h_eq', (h, g)), ('h_h_ne', (h, g)), ('h_h_eq_slice', (h, y, k)), ('h_h_ne_slice', (h, y, k)), ('h_h_hex', (h, buf))):
        if fn == 'h_h_hex':
            fmtlib.Model(sc.e, keep=False)
        r.do(fn, *args)
    part.bounds.append('hash values: hash lengths 1..32, slices of any length up to 2^56')
    part.ok('%d calls on hash values' % r.n)


def hexdebug(part):
    import debug
    debug.hexdebug(part)


def oneshot(part):
    r = Run(part, 'one-shot')
    sc = r.sc
    n = sc.length('n')
    m = sc.arr('m', n)
    h = sc.obj('h', 'Hash')
    sc.layer.add(G.S.Stream('s', G.Params(sc).words(), G.Params(sc).byte('m')))
    sc.e.must_close = True
    r.tr.lens = {'m': n}
    r.do('h_blake2s', m, n, h)
    part.bounds.append('blake2s: every length up to 2^56')
    part.ok('blake2s on every length')


def trees(part, key=None, how='params', lens=TR.FIXED, portable=False):
    n = 0
    for ns in lens:
        r = Run(part, 'tree calls %s' % (ns,), {'m': sum(ns)})
        sc = r.sc
        par = TR.SpPar(sc, key, how == 'params')
        m = sc.arr('m', sum(ns))
        s, h, p, q = sc.obj('s', 'SpState'), sc.obj('h', 'Hash'), sc.obj('p', 'SpParams'), sc.obj('q', 'SpParams')
        if how == 'params':
            cs = par.build(p)
            r.all(cs)
            r.do('h_sp_p_clone', p, q)
            r.do('h_sp_p_to_state', q, s)
        else:
            r.do('h_sp_' + how, s)
        if portable:
            r.do('h_sp_force_portable', s)
        pos = 0
        for i, x in enumerate(ns):
            r.do('h_sp_write' if i % 2 and sc.prog.find('@h_sp_write') else 'h_sp_update', s, I.Ptr(m.obj, pos), x)
            pos += x
            r.do('h_sp_count', s)
            r.do('h_sp_flush', s)
            r.do('h_sp_finalize', s, h)
        r.do('h_sp_finalize', s, h)
        n += r.n
    part.bounds.append('tree states (%s): updates of lengths %s; parameters, key and contents symbolic' % (how, lens))
    part.ok('%d calls on tree states (%s%s)' % (n, how, ', keyed' if key else ''))


def treeval(part):
    """one-shot tree hash and formatting"""
    n = 0
    for x in (0, 1, 64, 511, 512, 960, 961, 1024, 1100, 2049):
        r = Run(part, 'blake2sp %d' % x, {'m': x})
        sc = r.sc
        m = sc.arr('m', x)
        h, s, p = sc.obj('h', 'Hash'), sc.obj('s', 'SpState'), sc.obj('p', 'SpParams')
        buf = sc.obj('buf', (4096, 1))
        r.do('h_blake2sp', m, x, h)
        r.do('h_sp_p_default', p)
        r.do('h_sp_p_to_state', p, s)
        r.do('h_sp_update', s, m, x)
        if x in (0, 961):
            r.fmt('h_sp_p_fmt', p, buf)
            r.fmt('h_sp_fmt', s, buf)
        n += r.n
    part.ok('%d calls: one-shot tree hash, formatting' % n)


def treeany(part, key=None, cap=1 << 56):
    """one tree update of any length from the new state, then finalize"""
    r = Run(part, 'tree update of any length')
    sc = r.sc
    sc.e.must_close = True
    t = TR.Tree(part, key, True, 'tree update of any length')
    sc = r.sc = t.sc
    r.tr = Trace(sc)
    n = sc.length('n0', hi=cap)
    m = sc.arr('m', n)
    r.tr.lens = {'m': n}
    r.all(t.construct())
    for st, _ in sc.sts:
        t.abstract(st)
    r.do('h_sp_update', t.s, m, n)
    r.do('h_sp_count', t.s)
    part.bounds.append('tree states: one update of any length up to %d on a new state' % cap)
    part.ok('one tree update of any length (%s)' % ('keyed' if key else 'unkeyed'))


def lanes(part, keys):
    many.fixed8(part, keys)


def lanesany(part, keys):
    many.lanes8(part, keys)


def hash8(part):
    many.hash8(part)


def hash8_fixed(part):
    many.hash8_fixed(part)


def exact(part, k, key=None):
    many.exact(part, k, key)


def exact_fixed(part, k, key=None):
    for ns in (64, 128, 192):
        j = many.Job(part, 'h_hash%d_exact' % k, k, [key] * k, [ns] * k, common=True, name='hash%d_exact %d' % (k, ns))
        j.run()
    part.ok('hash%d_exact on 1 to 3 blocks (%s)' % (k, 'keyed' if key else 'unkeyed'))


def kernel(part, name):
    """a kernel executed on any input at any address: no panic, no access outside its arguments"""
    sc, fn, args, n, at, ins, hp = kern.setup(part, name, False)
    e = sc.e
    st0 = sc.sts[0][0]
    before = {oid: st0.mem[oid] for oid in sc.objs}
    outs = e.run('@' + fn, st0.copy(), args)
    tr = Trace(sc, [(fn, tuple(args))])
    if not part.panics(sc, name, tr):
        raise Undecided('possible panic')
    if not outs:
        raise Undecided('no final state')
    part.bounds.append('%s: every input, blocks at any address' % name)
    part.ok('%s stays within its arguments' % name)
