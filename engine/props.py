"""The checks: which parts decide which property."""
import terms as tm
from terms import add, eq, not_
import interp as I
import stream as S
import single as G
import kern
import many
import tree
import tree as TR
import treehist as TH
import setters
import hashes
import debug
import calls
from single import Hist, chain
from chk import Trace, Undecided

COMMON = [
    'LLVM IR as produced by rustc without optimisation passes means what engine/interp.py makes of it; intrinsics and the C memory functions as modelled there',
    'the compression kernels behind the public function names compute F (decided by P01 and P02)',
    'z3 is right when it answers unsat',
]


def hist_part(*a, **kw):
    what = kw.pop('do')

    def f(part):
        h = Hist(part, *a, **kw)
        h.ref()
        what(h, part)
    f.__name__ = 'induction over the history'
    return f


def alt(f, *a, **kw):
    label = kw.pop('label', None) or kw.get('name', f.__name__)

    def g(part):
        return f(part, *a, **kw)
    g.__name__ = label
    return g


def chains(*a, **kw):
    """weaker alternatives, tried in order when the induction does not close"""
    return [alt(chain, *a, **dict(kw, finals=(False, True), name='two updates')),
            alt(chain, *a, **dict(kw, finals=(True, True), cap=400, merge=False, name='two updates, short')),
            alt(G.fixed, *a, **kw)]


# ---------------------------------------------------------------- trees

def anytree(key, how='params', n=4, wrap=None, what=('step',), fin=True, fallback=(), **kw):
    """parts that decide any history of a tree state"""
    wrap = wrap or alt
    sym = how == 'params'
    w = 'tree %s' % how if not sym else 'tree keyed' if key else 'tree unkeyed'
    f = lambda **k2: [wrap(TH.history, key, sym, how, label='induction over the history', **dict(kw, **k2))] + list(fallback)
    ps = [('%s, any history: %s' % (w, '/'.join(what)), f(what=what), 90)] if what else []
    if fin:
        ps += [('%s, any history: finalize %d' % (w, i + 1), f(what=('finalize',), wins=(i, n)), 80) for i in range(n)]
    return ps


def anysp(n=2, wrap=None, **kw):
    wrap = wrap or alt
    return [('blake2sp of every length %d' % (i + 1), [wrap(TH.oneshot, (i, n), label='every length', **kw)], 70) for i in range(n)]


# ---------------------------------------------------------------- P03

def oneshot(part, fn='h_blake2s'):
    sc = part.scenario('one-shot')
    n = sc.length('n')
    m = sc.arr('m', n)
    h = sc.obj('h', 'Hash')
    par = G.Params(sc)
    st = sc.layer.add(S.Stream('s', par.words(), par.byte('m')))
    t = Trace(sc, [(fn, (m, n, h))], lens={'m': n})
    t.want(kind='digest', hash=h, **par.oracle([['m', 0, n]]))
    sc.hint_traces = [t]
    sc.e.must_close = True
    sc.call(fn, m, n, h)
    if not part.panics(sc, 'one-shot', t):
        raise Undecided('possible panic')
    if not sc.sts:
        raise Undecided('no state')
    for x, vals in sc.sts:
        x2, ln, p = sc.hash_of(x.copy(), h)
        part.prove_quiet('length', sc, x2, eq(ln, 32, 64), [t])
        bb = sc.bytes(x2, p, 32)
        part.prove_quiet('digest', sc, x2, tm.conj([not_(S.diff8(a, b, 0)) if a is not None else 0 for a, b in zip(bb, S.wbytes(st.d(n, 0)))]), [t])
    part.ok('one-shot digest of every message')


def p03(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.finalize()])
    ps = [('history', [hist_part('new', do=do)] + chains('new'), 50),
          ('history-default', [hist_part('default', do=do)] + chains('default'), 50),
          ('one-shot', [oneshot], 10)]
    return ps + ONE()



# ---------------------------------------------------------------- P05, P04, P07, P08, P09, P20

def p05(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.finalize()])
    return [('keyed-history', [hist_part('params', key=True, do=do)] + chains('params', key=True), 50)] + ONE()


def p04(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.finalize()])
    return [('all-params-history', [hist_part('params', 'all', do=do)] + chains('params', 'all'), 50),
            ('all-params-keyed-history', [hist_part('params', 'all', key=True, do=do)] + chains('params', 'all', key=True), 50)] + ONE()


def p07(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.finalize(), h.noop('h_s_count', (h.s,))])
    return [('unkeyed', [hist_part('new', do=do)] + chains('new'), 50),
            ('keyed-with-params', [hist_part('params', 'all', key=True, do=do)] + chains('params', 'all', key=True), 50)] + (
        anytree(True, what=('step', 'count'), fallback=[alt(tree.fixed, True, label='fixed lengths')]) +
        anytree(None, what=('step', 'count'), fallback=[alt(tree.fixed, None, label='fixed lengths')]))


def p08(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.finalize(), h.setlast(), h.clone()])
    return [('state-flag', [hist_part('new', lastvar=True, clone=True, do=do)], 50),
            ('params-flag', [hist_part('params', 'all', key=True, do=lambda h, part: h.obligations([h.new_is_R0(), h.step(), h.finalize()]))], 50),
            ('params-and-state-flag', [hist_part('params', 'all', key=True, lastvar=True, clone=True, do=do)], 50)]


def p09(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.finalize(), h.noop('h_s_count', (h.s,))])
        h.count()
    return [('unkeyed', [hist_part('new', do=do)], 50),
            ('keyed', [hist_part('params', key=True, do=do)], 50)] + (
        anytree(True, what=('step', 'count'), n=2, fallback=[alt(tree.fixed, True, label='fixed lengths')]) +
        anytree(None, what=('step', 'count'), fallback=[alt(tree.fixed, None, label='fixed lengths')]))


def p20(tier):
    def do(h, part):
        h.obligations([h.new_is_R0(), h.step(), h.step('h_s_write', True), h.noop('h_s_flush', (h.s,), 0), h.finalize()])
    return [('unkeyed', [hist_part('new', do=do)], 50),
            ('keyed', [hist_part('params', key=True, do=do)], 50)] + (
        anytree(True, what=('step', 'write', 'flush'), n=4, fallback=[alt(tree.writes, True)]) +
        anytree(None, what=('step', 'write', 'flush'), n=4, fallback=[alt(tree.writes, None)]))


# ---------------------------------------------------------------- P01, P02

def kernels(names, flags=False, weight=30):
    return [('kernel ' + n, [alt(kern.kernel, n, flags, label='sweep')], weight) for n in names]


def ONE():
    return kernels(['portable', 'sse41'], True, 10)


def p01(tier):
    return kernels(['portable', 'sse41'])


def p02(tier):
    return kernels(['portable8', 'avx2', 'avx2 vectorized', 'avx2 transposed', 'sse41 transposed'])


# ---------------------------------------------------------------- P10, P11

def p10(tier):
    eo = [i % 2 == 1 for i in range(8)]
    oe = [not x for x in eo]
    ind = [('lanes 1 3 5 7 keyed', [alt(many.lanes8, eo, label='induction over the history')], 100),
           ('lanes 0 2 4 6 keyed', [alt(many.lanes8, oe, label='induction over the history')], 100)]
    fix = [
            ('fixed lengths, lanes 1 3 5 7 keyed', [alt(many.fixed8, eo, label='fixed lengths')], 50),
            ('fixed lengths, lanes 0 2 4 6 keyed', [alt(many.fixed8, oe, label='fixed lengths')], 50)]
    return ind[:2 if tier == 'thorough' else 1] + fix + kernels(['portable', 'sse41', 'portable8', 'avx2'], True, 10)


def p11(tier):
    return [('hash8', [many.hash8], 100),
            ('fixed lengths', [many.hash8_fixed], 50),
            ('keyed', [many.hash8_keyed], 20)] + kernels(['portable', 'sse41', 'avx2 vectorized'], True, 10)


# ---------------------------------------------------------------- P12

def p12(tier):
    ps = [('hash8_exact one block', [alt(many.exact_sweep, 8, label='sweep')], 60),
          ('hash4_exact one block', [alt(many.exact_sweep, 4, label='sweep')], 60)]
    for k in (8, 4):
        for key in (None, True):
            w = 'hash%d_exact %s' % (k, 'keyed' if key else 'unkeyed')
            ps += [(w, [alt(many.exact, k, key, label='induction over the blocks')], 50),
                   (w + ' fixed', [alt(many.exact_fixed, k, key, label='fixed lengths')], 30),
                   (w + ' refuses', [alt(many.exact_refuse, k, key, label='refusal')], 20)]
    return ps


# ---------------------------------------------------------------- P13

def p13(tier):
    return (anytree(True) + anytree(None) + anytree(None, 'new', 2) + anytree(None, 'default', 2) + anysp() + [
        ('keyed, fixed lengths', [alt(tree.fixed, True)], 50),
            ('unkeyed, fixed lengths', [alt(tree.fixed, None)], 50),
            ('new, fixed lengths', [alt(tree.fixed, None, False, 'new')], 50),
            ('default, fixed lengths', [alt(tree.fixed, None, False, 'default', tree.FIXED[3:9])], 50),
            ('blake2sp, fixed lengths', [tree.oneshot], 50)] + kernels(['portable', 'sse41', 'portable8', 'avx2'], True, 10))


# ---------------------------------------------------------------- P06

def p06(tier):
    ps = []
    for t in (False, True):
        w = 'tree ' if t else 'sequential '
        ps += [(w + 'any history', [alt(setters.closed, t, label='induction over the setter calls')], 30),
               (w + 'legal values', [alt(setters.legal, t, label='panics')], 30),
               (w + 'digests keyed', [alt(setters.digests, t, True, label='digests')], 30),
               (w + 'digests unkeyed', [alt(setters.digests, t, None, label='digests')], 30)]
    return ps


# ---------------------------------------------------------------- P17

def p17(tier):
    return [('accessors', [hashes.accessors], 10),
            ('hex', [hashes.hexa], 10),
            ('hash with hash', [alt(hashes.compare, label='comparison')], 30),
            ('hash with slice', [alt(hashes.compare, True, label='comparison')], 30)]


# ---------------------------------------------------------------- P19

def p19(tier):
    al = lambda *a: [alt(debug.history, *a, label='any history'), alt(debug.chain, *a[:3], label='fixed lengths')]
    return [('state new', al('new'), 30),
            ('state default', al('default'), 30),
            ('state keyed', al('params', 'all', True), 60),
            ('state unkeyed, all parameters', al('params', 'all', None, True), 60),
            ('tree keyed', [alt(debug.tree, True, label='fixed lengths')], 40),
            ('tree unkeyed', [alt(debug.tree, None, label='fixed lengths')], 40),
            ('hash', [debug.hexdebug], 20)]


# ---------------------------------------------------------------- P15, P16

def flows(what, deep=False):
    """[(name, alternatives, weight)] for calls.only"""
    o = lambda f, /, *a, **kw: calls.only(what, f, *a, **kw)
    wr = lambda f, /, *a, **kw: o(f, *a, **kw)
    eo = [i % 2 == 1 for i in range(8)]
    anyh = lambda *a, **kw: [o(calls.history, *a, label='any history', **kw)]
    ps = [('sequential new', anyh('new') + [o(calls.sequence, 'new')], 60),
          ('sequential keyed', anyh('params', 'all', True, True) + [o(calls.sequence, 'params', 'all', True)], 90),
          ('sequential new, fixed lengths', [o(calls.sequence, 'new')], 20),
          ('sequential default, fixed lengths', [o(calls.sequence, 'default')], 20),
          ('sequential keyed, fixed lengths', [o(calls.sequence, 'params', 'all', True)], 30),
          ('sequential unkeyed, fixed lengths', [o(calls.sequence, 'params', 'all')], 30),
          ('values', [o(calls.values)], 20),
          ('one-shot', [o(calls.oneshot)], 20),
          ('tree keyed', [o(calls.trees, True)], 40),
          ('tree unkeyed', [o(calls.trees)], 40),
          ('tree new', [o(calls.trees, None, 'new', TR.FIXED[3:9])], 40),
          ('tree default', [o(calls.trees, None, 'default', TR.FIXED[:3])], 40),
          ('tree values', [o(calls.treeval)], 20),
          ('blake2sp, every length', [o(TH.oneshot, check=False)], 90)] + (
              anytree(True, wrap=wr, what=('step', 'write', 'flush', 'count'), check=False, fallback=[o(calls.trees, True)]) +
              anytree(None, wrap=wr, what=('step', 'write', 'flush', 'count'), check=False, fallback=[o(calls.trees)])) + [
          ('eight lanes, fixed lengths', [o(calls.lanes, eo)], 60),
          ('eight lanes, fixed lengths, other keys', [o(calls.lanes, [not x for x in eo])], 60),
          ('hash8', [o(calls.hash8)], 100),
          ('hash8, fixed lengths', [o(calls.hash8_fixed)], 50)]
    for k in (8, 4):
        for key in (None, True):
            w = 'hash%d_exact %s' % (k, 'keyed' if key else 'unkeyed')
            ps.append((w, [o(calls.exact_fixed, k, key)], 40))
            ps.append((w + ' any length', [o(calls.exact, k, key)], 50))
    if deep:
        ps.append(('eight lanes', [o(calls.lanesany, eo)], 200))
    return ps


def nostd(ps):
    return [('no std: ' + n, a, w, 'nostd') for n, a, w in ps]


def p15(tier):
    ps = flows('features', tier == 'thorough')
    few = [p for p in flows('features') if 'any length' not in p[0] and 'any history' not in p[0] and 'every length' not in p[0] and p[0] not in ('sequential new', 'sequential keyed')]
    return ps + nostd(few)


def p16(tier):
    ps = flows('panics', tier == 'thorough')
    few = [p for p in flows('panics') if 'any length' not in p[0] and 'any history' not in p[0] and 'every length' not in p[0] and p[0] not in ('sequential new', 'sequential keyed', 'hash8')]
    ks = [('kernel ' + n, [calls.only('panics', calls.kernel, n)], 10) for n in ('portable', 'sse41', 'portable8', 'avx2', 'avx2 vectorized', 'avx2 transposed', 'sse41 transposed')]
    return ps + ks + nostd(few)


# ---------------------------------------------------------------- P14

def p14(tier):
    o = lambda f, /, *a, **kw: calls.only('configs', f, *a, **kw)
    eo = [i % 2 == 1 for i in range(8)]

    def hist(*a, **kw):
        def f(part):
            h = Hist(part, *a, **kw)
            h.ref()
            h.obligations([h.new_is_R0(), h.step(), h.finalize()])
        return [o(f, label='any history'), o(G.fixed, *a, label='fixed lengths', **kw)]
    few = TR.FIXED if tier == 'thorough' else TR.FIXED[2:8] + TR.FIXED[13:17]
    wr = lambda f, /, *a, **kw: o(f, *a, **kw)
    many_ = lambda key, **kw: anytree(key, wrap=wr, **kw)
    both = [('hash8, fixed lengths', [o(many.hash8_fixed)], 50),
            ('eight lanes, fixed lengths', [o(many.fixed8, eo)], 60),
            ('sequential new', hist('new'), 40),
            ('sequential keyed, all parameters', hist('params', 'all', key=True), 50),
            ('one-shot', [o(oneshot)], 20),
            ('tree keyed', [o(tree.fixed, True, lens=few)], 50),
            ('tree unkeyed', [o(tree.fixed, None, lens=few)], 50),
            ('tree new', [o(tree.fixed, None, False, 'new', TR.FIXED[3:6])], 30)]
    for k in (8, 4):
        for key in (None, True):
            w = 'hash%d_exact %s' % (k, 'keyed' if key else 'unkeyed')
            both.append((w, [o(many.exact, k, key), o(many.exact_fixed, k, key)], 50))
    ps = both + nostd(both + many_(None)) + many_(True)
    ps += [('portable forced: ' + n, a, x) for n, a, x in many_(None, portable=True)]
    ps += [('no std: hash8', [o(many.hash8)], 100, 'nostd'),
           ('hash8', [o(many.hash8)], 150),
           ('portable forced: sequential new', hist('new', portable=True), 40),
           ('portable forced: sequential keyed, all parameters', hist('params', 'all', key=True, portable=True), 50),
           ('portable forced: tree keyed', [o(tree.fixed, True, portable=True, lens=few)], 50),
           ('portable forced: tree unkeyed', [o(tree.fixed, None, portable=True, lens=few)], 50),
          ('portable forced later: sequential', [o(G.fixed, 'params', 'all', key=True, portable='mid', label='fixed lengths')], 50),
          ('portable forced later: tree keyed', [o(tree.fixed, True, portable='mid', lens=few)], 50),
          ('portable forced later: tree new', [o(tree.fixed, None, False, 'new', portable='mid', lens=few)], 50)]
    if tier == 'thorough':
        ps += nostd([('eight lanes', [o(many.lanes8, eo)], 200)])
    return ps + [(n, [o(kern.kernel, n[7:], True, label='sweep')], w) for n, _, w in kernels(['portable', 'sse41', 'portable8', 'avx2', 'avx2 vectorized'])]


PROPS = {}
PROPS['P01'] = dict(parts=p01, bounds=['none: all inputs'])
PROPS['P02'] = dict(parts=p02, bounds=['none: all inputs of all lanes'])
HB = 'total message length <= 2^56 bytes, any number of calls in any order (induction over the calls)'
PROPS['P03'] = dict(parts=p03, bounds=[HB])
PROPS['P04'] = dict(parts=p04, bounds=[HB])
PROPS['P05'] = dict(parts=p05, bounds=[HB])
PROPS['P07'] = dict(parts=p07, bounds=[HB])
PROPS['P08'] = dict(parts=p08, bounds=[HB])
PROPS['P09'] = dict(parts=p09, bounds=[HB])
PROPS['P20'] = dict(parts=p20, bounds=[HB])
PROPS['P11'] = dict(parts=p11, bounds=['each length up to 2^56'])
PROPS['P10'] = dict(parts=p10, bounds=[HB + ' for each of the eight states'])
PROPS['P12'] = dict(parts=p12, bounds=['one to 2^50 blocks'])
PROPS['P13'] = dict(parts=p13, bounds=[])
PROPS['P06'] = dict(parts=p06, bounds=[])
PROPS['P17'] = dict(parts=p17, bounds=[])
PROPS['P19'] = dict(parts=p19, bounds=[])
PROPS['P15'] = dict(parts=p15, bounds=[])
PROPS['P16'] = dict(parts=p16, bounds=[])
PROPS['P14'] = dict(parts=p14, bounds=[])
