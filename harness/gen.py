"""Writes src/lib.rs (the wrappers are repetitive)."""
o = []
P = o.append
P('''//! Thin `extern "C"` wrappers over the public API of blake2s_simd (written by gen.py).
//! The symbolic engine executes them from their LLVM IR; the replayer calls them through the cdylib.
#![allow(clippy::all)]
use blake2s_simd as b;
use blake2s_simd::blake2sp as sp;
use blake2s_simd::benchmarks as bm;
use core::fmt::Write as _;
use core::ptr;
use core::slice::from_raw_parts as raw;
#[cfg(target_arch = "x86_64")]
use core::arch::x86_64::{__m128i, __m256i};

/// A writer into a caller-supplied buffer.
pub struct W {
    p: *mut u8,
    cap: usize,
    n: usize,
}
impl core::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.cap - self.n {
            return Err(core::fmt::Error);
        }
        unsafe { ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) };
        self.n += s.len();
        Ok(())
    }
}

#[no_mangle]
pub unsafe extern "C" fn h_sizes(o: *mut usize) {
    *o = core::mem::size_of::<b::Params>();
    *o.add(1) = core::mem::size_of::<b::State>();
    *o.add(2) = core::mem::size_of::<b::Hash>();
    *o.add(3) = core::mem::size_of::<sp::Params>();
    *o.add(4) = core::mem::size_of::<sp::State>();
    *o.add(5) = core::mem::align_of::<b::Params>();
    *o.add(6) = core::mem::align_of::<b::State>();
    *o.add(7) = core::mem::align_of::<b::Hash>();
    *o.add(8) = core::mem::align_of::<sp::Params>();
    *o.add(9) = core::mem::align_of::<sp::State>();
}
''')


def fn(name, args, body, ret=None, cfg=None):
    if cfg:
        P('#[cfg(%s)]' % cfg)
    P('#[no_mangle]')
    P('pub unsafe extern "C" fn %s(%s)%s {' % (name, args, ' -> ' + ret if ret else ''))
    for l in body.strip().split('\n'):
        P('    ' + l)
    P('}')


for pre, M in (('p', 'b'), ('sp_p', 'sp')):
    fn('h_%s_new' % pre, 'p: *mut %s::Params' % M, 'ptr::write(p, %s::Params::new());' % M)
    fn('h_%s_default' % pre, 'p: *mut %s::Params' % M, 'ptr::write(p, %s::Params::default());' % M)
    fn('h_%s_clone' % pre, 'p: *const %s::Params, q: *mut %s::Params' % (M, M), 'ptr::write(q, (*p).clone());')
    fn('h_%s_hash_length' % pre, 'p: *mut %s::Params, v: usize' % M, '(*p).hash_length(v);')
    fn('h_%s_key' % pre, 'p: *mut %s::Params, k: *const u8, n: usize' % M, '(*p).key(raw(k, n));')
    fn('h_%s_to_state' % pre, 'p: *const %s::Params, s: *mut %s::State' % (M, M), 'ptr::write(s, (*p).to_state());')
for n in ('salt', 'personal'):
    fn('h_p_' + n, 'p: *mut b::Params, k: *const u8, n: usize', '(*p).%s(raw(k, n));' % n)
for n, t in (('fanout', 'u8'), ('max_depth', 'u8'), ('max_leaf_length', 'u32'), ('node_offset', 'u64'), ('node_depth', 'u8'), ('inner_hash_length', 'usize'), ('last_node', 'bool')):
    fn('h_p_' + n, 'p: *mut b::Params, v: ' + t, '(*p).%s(v);' % n)
# several setters in one expression, to exercise chaining through &mut Self
fn('h_p_all', 'p: *mut b::Params, hl: usize, k: *const u8, kn: usize, fo: u8, md: u8, ml: u32, no: u64, nd: u8, il: usize, sa: *const u8, sn: usize, pe: *const u8, pn: usize, ln: bool',
   '(*p).hash_length(hl).key(raw(k, kn)).fanout(fo).max_depth(md).max_leaf_length(ml).node_offset(no)\n    .node_depth(nd).inner_hash_length(il).salt(raw(sa, sn)).personal(raw(pe, pn)).last_node(ln);')

for pre, M in (('s', 'b'), ('sp', 'sp')):
    S = '%s::State' % M
    fn('h_%s_new' % pre, 's: *mut ' + S, 'ptr::write(s, %s::new());' % S)
    fn('h_%s_default' % pre, 's: *mut ' + S, 'ptr::write(s, %s::default());' % S)
    fn('h_%s_update' % pre, 's: *mut %s, m: *const u8, n: usize' % S, '(*s).update(raw(m, n));')
    fn('h_%s_finalize' % pre, 's: *mut %s, h: *mut b::Hash' % S, 'ptr::write(h, (*s).finalize());')
    fn('h_%s_count' % pre, 's: *const ' + S, '(*s).count()', 'u64')
    fn('h_%s_write' % pre, 's: *mut %s, m: *const u8, n: usize' % S,
       'match std::io::Write::write(&mut *s, raw(m, n)) {\n    Ok(v) => v,\n    Err(_) => usize::MAX,\n}', 'usize', 'feature = "std"')
    fn('h_%s_flush' % pre, 's: *mut ' + S, 'match std::io::Write::flush(&mut *s) {\n    Ok(()) => 0,\n    Err(_) => 1,\n}', 'usize', 'feature = "std"')
    fn('h_%s_fmt' % pre, 's: *const %s, p: *mut u8, cap: usize' % S,
       'let mut w = W { p, cap, n: 0 };\nmatch write!(w, "{:?}", &*s) {\n    Ok(()) => w.n,\n    Err(_) => usize::MAX,\n}', 'usize')
fn('h_s_clone', 's: *const b::State, t: *mut b::State', 'ptr::write(t, (*s).clone());')
fn('h_s_set_last_node', 's: *mut b::State, v: bool', '(*s).set_last_node(v);')
fn('h_s_force_portable', 's: *mut b::State', 'bm::force_portable(&mut *s);')
fn('h_sp_force_portable', 's: *mut sp::State', 'bm::force_portable_blake2sp(&mut *s);')
fn('h_sp_p_fmt', 's: *const sp::Params, p: *mut u8, cap: usize',
   'let mut w = W { p, cap, n: 0 };\nmatch write!(w, "{:?}", &*s) {\n    Ok(()) => w.n,\n    Err(_) => usize::MAX,\n}', 'usize')
fn('h_h_fmt', 's: *const b::Hash, p: *mut u8, cap: usize',
   'let mut w = W { p, cap, n: 0 };\nmatch write!(w, "{:?}", &*s) {\n    Ok(()) => w.n,\n    Err(_) => usize::MAX,\n}', 'usize')
fn('h_blake2s', 'm: *const u8, n: usize, h: *mut b::Hash', 'ptr::write(h, b::blake2s(raw(m, n)));')
fn('h_blake2sp', 'm: *const u8, n: usize, h: *mut b::Hash', 'ptr::write(h, sp::blake2sp(raw(m, n)));')

fn('h_h_len', 'h: *const b::Hash', '(*h).as_bytes().len()', 'usize')
fn('h_h_ptr', 'h: *const b::Hash', '(*h).as_bytes().as_ptr()', '*const u8')
fn('h_h_aslen', 'h: *const b::Hash', 'let r: &[u8] = (*h).as_ref();\nr.len()', 'usize')
fn('h_h_asptr', 'h: *const b::Hash', 'let r: &[u8] = (*h).as_ref();\nr.as_ptr()', '*const u8')
fn('h_h_clone', 'h: *const b::Hash, g: *mut b::Hash', 'ptr::write(g, (*h).clone());')
fn('h_h_eq', 'h: *const b::Hash, g: *const b::Hash', '*h == *g', 'bool')
fn('h_h_ne', 'h: *const b::Hash, g: *const b::Hash', '*h != *g', 'bool')
fn('h_h_eq_slice', 'h: *const b::Hash, m: *const u8, n: usize', '*h == *raw(m, n)', 'bool')
fn('h_h_ne_slice', 'h: *const b::Hash, m: *const u8, n: usize', '*h != *raw(m, n)', 'bool')
fn('h_h_hex', 'h: *const b::Hash, p: *mut u8', 'let x = (*h).to_hex();\nlet s: &str = x.as_str();\nptr::copy_nonoverlapping(s.as_ptr(), p, s.len());\ns.len()', 'usize')


def st8(x):
    return ', '.join('&mut **s.add(%d)' % i for i in range(8))


def in8(n=8):
    return ', '.join('raw(*m.add(%d), *n.add(%d))' % (i, i) for i in range(n))


fn('h_update8', 's: *const *mut b::State, m: *const *const u8, n: *const usize', 'b::update8(%s,\n    %s);' % (st8(0), in8()))
fn('h_finalize8', 's: *const *mut b::State, h: *mut b::Hash', 'ptr::write(h as *mut [b::Hash; 8], b::finalize8(%s));' % st8(0))
fn('h_hash8', 'p: *const *const b::Params, m: *const *const u8, n: *const usize, h: *mut b::Hash',
   'ptr::write(h as *mut [b::Hash; 8], b::hash8(%s,\n    %s));' % (', '.join('&**p.add(%d)' % i for i in range(8)), in8()))
fn('h_hash8_exact', 'p: *const b::Params, m: *const *const u8, n: *const usize, h: *mut b::Hash',
   'ptr::write(h as *mut [b::Hash; 8], b::hash8_exact(&*p, %s));' % in8())
fn('h_hash4_exact', 'p: *const b::Params, m: *const *const u8, n: *const usize, h: *mut b::Hash',
   'ptr::write(h as *mut [b::Hash; 4], b::hash4_exact(&*p, %s));' % in8(4))

# kernels
H = '*mut [u32; 8]'
B = '*const [u8; 64]'
for n, cfg in (('portable', None), ('sse41', 'target_arch = "x86_64"')):
    fn('h_k1_' + n, 'h: %s, m: %s, c: u64, f0: u32, f1: u32' % (H, B), 'bm::compress_%s(&mut *h, &*m, c, f0, f1);' % n, None, cfg)
for n, cfg in (('portable', None), ('avx2', 'target_arch = "x86_64"')):
    fn('h_k8_' + n, 'h: *const %s, m: *const %s, c: *const u64, f0: *const u32, f1: *const u32' % (H, B),
       'bm::compress8_%s(%s,\n    %s,\n    %s,\n    %s,\n    %s);' % (
           n, ', '.join('&mut **h.add(%d)' % i for i in range(8)), ', '.join('&**m.add(%d)' % i for i in range(8)),
           ', '.join('*c.add(%d)' % i for i in range(8)), ', '.join('*f0.add(%d)' % i for i in range(8)), ', '.join('*f1.add(%d)' % i for i in range(8))), None, cfg)
X = 'target_arch = "x86_64"'
fn('h_k8v_avx2', 'h: *mut [b::AlignedWords8; 8], m: *const %s, cl: *const b::AlignedWords8, ch: *const b::AlignedWords8, f0: *const b::AlignedWords8, f1: *const b::AlignedWords8' % B,
   'bm::compress8_vectorized_avx2(&mut *h, %s, &*cl, &*ch, &*f0, &*f1);' % ', '.join('&**m.add(%d)' % i for i in range(8)), None, X)
fn('h_k8t_avx2', 'h: *mut [__m256i; 8], m: *const [__m256i; 16], a: *const __m256i',
   'bm::compress8_transposed_all_avx2(&mut *h, &*m, ptr::read(a), ptr::read(a.add(1)), ptr::read(a.add(2)), ptr::read(a.add(3)));', None, X)
fn('h_k4t_sse41', 'h: *mut [__m128i; 8], m: *const %s, a: *const __m128i' % B,
   'bm::compress4_transposed_sse41(&mut *h, %s, ptr::read(a), ptr::read(a.add(1)), ptr::read(a.add(2)), ptr::read(a.add(3)));' % ', '.join('&**m.add(%d)' % i for i in range(4)), None, X)

# addresses of the kernels that have a public name
P('''
pub type K1 = fn(&mut [u32; 8], &[u8; 64], u64, u32, u32);
pub type K1U = unsafe fn(&mut [u32; 8], &[u8; 64], u64, u32, u32);
#[no_mangle]
pub static KP_PORTABLE1: K1 = bm::compress_portable;
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub static KP_SSE41_1: K1U = bm::compress_sse41;''')
K8 = ', '.join(['&mut [u32; 8]'] * 8 + ['&[u8; 64]'] * 8 + ['u64'] * 8 + ['u32'] * 16)
P('''#[no_mangle]
pub static KP_PORTABLE8: fn(%s) = bm::compress8_portable;
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub static KP_AVX2_8: unsafe fn(%s) = bm::compress8_avx2;''' % (K8, K8))
P('''#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub static KP_AVX2_8V: unsafe fn(&mut [b::AlignedWords8; 8], %s, %s) = bm::compress8_vectorized_avx2;''' % (', '.join(['&[u8; 64]'] * 8), ', '.join(['&b::AlignedWords8'] * 4)))

for f in ('sse2', 'sse3', 'ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'bmi1', 'bmi2', 'avx512f', 'avx512vl', 'popcnt', 'fma'):
    fn('h_feat_' + f.replace('.', '_'), '', 'std::is_x86_feature_detected!("%s")' % f, 'bool', 'all(target_arch = "x86_64", feature = "std")')
open('src/lib.rs', 'w').write('\n'.join(o) + '\n')
