//! Thin `extern "C"` wrappers over the public API of blake2s_simd (written by gen.py).
//! The symbolic engine executes them from their LLVM IR; the replayer calls them through the cdylib.
#![allow(clippy::all)]
use blake2s_simd as b;
use blake2s_simd::blake2sp as sp;
use blake2s_simd::benchmarks as bm;
use core::fmt::Write as _;
use core::ptr;
use core::slice::from_raw_parts as raw;
#[cfg(target_arch = "x86_64")]
use core::arch::x86_64::{__m128i, __m256i};

/// A writer into a caller-supplied buffer.
pub struct W {
    p: *mut u8,
    cap: usize,
    n: usize,
}
impl core::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.cap - self.n {
            return Err(core::fmt::Error);
        }
        unsafe { ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) };
        self.n += s.len();
        Ok(())
    }
}

#[no_mangle]
pub unsafe extern "C" fn h_sizes(o: *mut usize) {
    *o = core::mem::size_of::<b::Params>();
    *o.add(1) = core::mem::size_of::<b::State>();
    *o.add(2) = core::mem::size_of::<b::Hash>();
    *o.add(3) = core::mem::size_of::<sp::Params>();
    *o.add(4) = core::mem::size_of::<sp::State>();
    *o.add(5) = core::mem::align_of::<b::Params>();
    *o.add(6) = core::mem::align_of::<b::State>();
    *o.add(7) = core::mem::align_of::<b::Hash>();
    *o.add(8) = core::mem::align_of::<sp::Params>();
    *o.add(9) = core::mem::align_of::<sp::State>();
}

#[no_mangle]
pub unsafe extern "C" fn h_p_new(p: *mut b::Params) {
    ptr::write(p, b::Params::new());
}
#[no_mangle]
pub unsafe extern "C" fn h_p_default(p: *mut b::Params) {
    ptr::write(p, b::Params::default());
}
#[no_mangle]
pub unsafe extern "C" fn h_p_clone(p: *const b::Params, q: *mut b::Params) {
    ptr::write(q, (*p).clone());
}
#[no_mangle]
pub unsafe extern "C" fn h_p_hash_length(p: *mut b::Params, v: usize) {
    (*p).hash_length(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_key(p: *mut b::Params, k: *const u8, n: usize) {
    (*p).key(raw(k, n));
}
#[no_mangle]
pub unsafe extern "C" fn h_p_to_state(p: *const b::Params, s: *mut b::State) {
    ptr::write(s, (*p).to_state());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_new(p: *mut sp::Params) {
    ptr::write(p, sp::Params::new());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_default(p: *mut sp::Params) {
    ptr::write(p, sp::Params::default());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_clone(p: *const sp::Params, q: *mut sp::Params) {
    ptr::write(q, (*p).clone());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_hash_length(p: *mut sp::Params, v: usize) {
    (*p).hash_length(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_key(p: *mut sp::Params, k: *const u8, n: usize) {
    (*p).key(raw(k, n));
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_to_state(p: *const sp::Params, s: *mut sp::State) {
    ptr::write(s, (*p).to_state());
}
#[no_mangle]
pub unsafe extern "C" fn h_p_salt(p: *mut b::Params, k: *const u8, n: usize) {
    (*p).salt(raw(k, n));
}
#[no_mangle]
pub unsafe extern "C" fn h_p_personal(p: *mut b::Params, k: *const u8, n: usize) {
    (*p).personal(raw(k, n));
}
#[no_mangle]
pub unsafe extern "C" fn h_p_fanout(p: *mut b::Params, v: u8) {
    (*p).fanout(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_max_depth(p: *mut b::Params, v: u8) {
    (*p).max_depth(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_max_leaf_length(p: *mut b::Params, v: u32) {
    (*p).max_leaf_length(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_node_offset(p: *mut b::Params, v: u64) {
    (*p).node_offset(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_node_depth(p: *mut b::Params, v: u8) {
    (*p).node_depth(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_inner_hash_length(p: *mut b::Params, v: usize) {
    (*p).inner_hash_length(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_last_node(p: *mut b::Params, v: bool) {
    (*p).last_node(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_p_all(p: *mut b::Params, hl: usize, k: *const u8, kn: usize, fo: u8, md: u8, ml: u32, no: u64, nd: u8, il: usize, sa: *const u8, sn: usize, pe: *const u8, pn: usize, ln: bool) {
    (*p).hash_length(hl).key(raw(k, kn)).fanout(fo).max_depth(md).max_leaf_length(ml).node_offset(no)
        .node_depth(nd).inner_hash_length(il).salt(raw(sa, sn)).personal(raw(pe, pn)).last_node(ln);
}
#[no_mangle]
pub unsafe extern "C" fn h_s_new(s: *mut b::State) {
    ptr::write(s, b::State::new());
}
#[no_mangle]
pub unsafe extern "C" fn h_s_default(s: *mut b::State) {
    ptr::write(s, b::State::default());
}
#[no_mangle]
pub unsafe extern "C" fn h_s_update(s: *mut b::State, m: *const u8, n: usize) {
    (*s).update(raw(m, n));
}
#[no_mangle]
pub unsafe extern "C" fn h_s_finalize(s: *mut b::State, h: *mut b::Hash) {
    ptr::write(h, (*s).finalize());
}
#[no_mangle]
pub unsafe extern "C" fn h_s_count(s: *const b::State) -> u64 {
    (*s).count()
}
#[cfg(feature = "std")]
#[no_mangle]
pub unsafe extern "C" fn h_s_write(s: *mut b::State, m: *const u8, n: usize) -> usize {
    match std::io::Write::write(&mut *s, raw(m, n)) {
        Ok(v) => v,
        Err(_) => usize::MAX,
    }
}
#[cfg(feature = "std")]
#[no_mangle]
pub unsafe extern "C" fn h_s_flush(s: *mut b::State) -> usize {
    match std::io::Write::flush(&mut *s) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_s_fmt(s: *const b::State, p: *mut u8, cap: usize) -> usize {
    let mut w = W { p, cap, n: 0 };
    match write!(w, "{:?}", &*s) {
        Ok(()) => w.n,
        Err(_) => usize::MAX,
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_new(s: *mut sp::State) {
    ptr::write(s, sp::State::new());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_default(s: *mut sp::State) {
    ptr::write(s, sp::State::default());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_update(s: *mut sp::State, m: *const u8, n: usize) {
    (*s).update(raw(m, n));
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_finalize(s: *mut sp::State, h: *mut b::Hash) {
    ptr::write(h, (*s).finalize());
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_count(s: *const sp::State) -> u64 {
    (*s).count()
}
#[cfg(feature = "std")]
#[no_mangle]
pub unsafe extern "C" fn h_sp_write(s: *mut sp::State, m: *const u8, n: usize) -> usize {
    match std::io::Write::write(&mut *s, raw(m, n)) {
        Ok(v) => v,
        Err(_) => usize::MAX,
    }
}
#[cfg(feature = "std")]
#[no_mangle]
pub unsafe extern "C" fn h_sp_flush(s: *mut sp::State) -> usize {
    match std::io::Write::flush(&mut *s) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_fmt(s: *const sp::State, p: *mut u8, cap: usize) -> usize {
    let mut w = W { p, cap, n: 0 };
    match write!(w, "{:?}", &*s) {
        Ok(()) => w.n,
        Err(_) => usize::MAX,
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_s_clone(s: *const b::State, t: *mut b::State) {
    ptr::write(t, (*s).clone());
}
#[no_mangle]
pub unsafe extern "C" fn h_s_set_last_node(s: *mut b::State, v: bool) {
    (*s).set_last_node(v);
}
#[no_mangle]
pub unsafe extern "C" fn h_s_force_portable(s: *mut b::State) {
    bm::force_portable(&mut *s);
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_force_portable(s: *mut sp::State) {
    bm::force_portable_blake2sp(&mut *s);
}
#[no_mangle]
pub unsafe extern "C" fn h_sp_p_fmt(s: *const sp::Params, p: *mut u8, cap: usize) -> usize {
    let mut w = W { p, cap, n: 0 };
    match write!(w, "{:?}", &*s) {
        Ok(()) => w.n,
        Err(_) => usize::MAX,
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_h_fmt(s: *const b::Hash, p: *mut u8, cap: usize) -> usize {
    let mut w = W { p, cap, n: 0 };
    match write!(w, "{:?}", &*s) {
        Ok(()) => w.n,
        Err(_) => usize::MAX,
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_blake2s(m: *const u8, n: usize, h: *mut b::Hash) {
    ptr::write(h, b::blake2s(raw(m, n)));
}
#[no_mangle]
pub unsafe extern "C" fn h_blake2sp(m: *const u8, n: usize, h: *mut b::Hash) {
    ptr::write(h, sp::blake2sp(raw(m, n)));
}
#[no_mangle]
pub unsafe extern "C" fn h_h_len(h: *const b::Hash) -> usize {
    (*h).as_bytes().len()
}
#[no_mangle]
pub unsafe extern "C" fn h_h_ptr(h: *const b::Hash) -> *const u8 {
    (*h).as_bytes().as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn h_h_aslen(h: *const b::Hash) -> usize {
    let r: &[u8] = (*h).as_ref();
    r.len()
}
#[no_mangle]
pub unsafe extern "C" fn h_h_asptr(h: *const b::Hash) -> *const u8 {
    let r: &[u8] = (*h).as_ref();
    r.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn h_h_clone(h: *const b::Hash, g: *mut b::Hash) {
    ptr::write(g, (*h).clone());
}
#[no_mangle]
pub unsafe extern "C" fn h_h_eq(h: *const b::Hash, g: *const b::Hash) -> bool {
    *h == *g
}
#[no_mangle]
pub unsafe extern "C" fn h_h_ne(h: *const b::Hash, g: *const b::Hash) -> bool {
    *h != *g
}
#[no_mangle]
pub unsafe extern "C" fn h_h_eq_slice(h: *const b::Hash, m: *const u8, n: usize) -> bool {
    *h == *raw(m, n)
}
#[no_mangle]
pub unsafe extern "C" fn h_h_ne_slice(h: *const b::Hash, m: *const u8, n: usize) -> bool {
    *h != *raw(m, n)
}
#[no_mangle]
pub unsafe extern "C" fn h_h_hex(h: *const b::Hash, p: *mut u8) -> usize {
    let x = (*h).to_hex();
    let s: &str = x.as_str();
    ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
    s.len()
}
#[no_mangle]
pub unsafe extern "C" fn h_update8(s: *const *mut b::State, m: *const *const u8, n: *const usize) {
    b::update8(&mut **s.add(0), &mut **s.add(1), &mut **s.add(2), &mut **s.add(3), &mut **s.add(4), &mut **s.add(5), &mut **s.add(6), &mut **s.add(7),
        raw(*m.add(0), *n.add(0)), raw(*m.add(1), *n.add(1)), raw(*m.add(2), *n.add(2)), raw(*m.add(3), *n.add(3)), raw(*m.add(4), *n.add(4)), raw(*m.add(5), *n.add(5)), raw(*m.add(6), *n.add(6)), raw(*m.add(7), *n.add(7)));
}
#[no_mangle]
pub unsafe extern "C" fn h_finalize8(s: *const *mut b::State, h: *mut b::Hash) {
    ptr::write(h as *mut [b::Hash; 8], b::finalize8(&mut **s.add(0), &mut **s.add(1), &mut **s.add(2), &mut **s.add(3), &mut **s.add(4), &mut **s.add(5), &mut **s.add(6), &mut **s.add(7)));
}
#[no_mangle]
pub unsafe extern "C" fn h_hash8(p: *const *const b::Params, m: *const *const u8, n: *const usize, h: *mut b::Hash) {
    ptr::write(h as *mut [b::Hash; 8], b::hash8(&**p.add(0), &**p.add(1), &**p.add(2), &**p.add(3), &**p.add(4), &**p.add(5), &**p.add(6), &**p.add(7),
        raw(*m.add(0), *n.add(0)), raw(*m.add(1), *n.add(1)), raw(*m.add(2), *n.add(2)), raw(*m.add(3), *n.add(3)), raw(*m.add(4), *n.add(4)), raw(*m.add(5), *n.add(5)), raw(*m.add(6), *n.add(6)), raw(*m.add(7), *n.add(7))));
}
#[no_mangle]
pub unsafe extern "C" fn h_hash8_exact(p: *const b::Params, m: *const *const u8, n: *const usize, h: *mut b::Hash) {
    ptr::write(h as *mut [b::Hash; 8], b::hash8_exact(&*p, raw(*m.add(0), *n.add(0)), raw(*m.add(1), *n.add(1)), raw(*m.add(2), *n.add(2)), raw(*m.add(3), *n.add(3)), raw(*m.add(4), *n.add(4)), raw(*m.add(5), *n.add(5)), raw(*m.add(6), *n.add(6)), raw(*m.add(7), *n.add(7))));
}
#[no_mangle]
pub unsafe extern "C" fn h_hash4_exact(p: *const b::Params, m: *const *const u8, n: *const usize, h: *mut b::Hash) {
    ptr::write(h as *mut [b::Hash; 4], b::hash4_exact(&*p, raw(*m.add(0), *n.add(0)), raw(*m.add(1), *n.add(1)), raw(*m.add(2), *n.add(2)), raw(*m.add(3), *n.add(3))));
}
#[no_mangle]
pub unsafe extern "C" fn h_k1_portable(h: *mut [u32; 8], m: *const [u8; 64], c: u64, f0: u32, f1: u32) {
    bm::compress_portable(&mut *h, &*m, c, f0, f1);
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn h_k1_sse41(h: *mut [u32; 8], m: *const [u8; 64], c: u64, f0: u32, f1: u32) {
    bm::compress_sse41(&mut *h, &*m, c, f0, f1);
}
#[no_mangle]
pub unsafe extern "C" fn h_k8_portable(h: *const *mut [u32; 8], m: *const *const [u8; 64], c: *const u64, f0: *const u32, f1: *const u32) {
    bm::compress8_portable(&mut **h.add(0), &mut **h.add(1), &mut **h.add(2), &mut **h.add(3), &mut **h.add(4), &mut **h.add(5), &mut **h.add(6), &mut **h.add(7),
        &**m.add(0), &**m.add(1), &**m.add(2), &**m.add(3), &**m.add(4), &**m.add(5), &**m.add(6), &**m.add(7),
        *c.add(0), *c.add(1), *c.add(2), *c.add(3), *c.add(4), *c.add(5), *c.add(6), *c.add(7),
        *f0.add(0), *f0.add(1), *f0.add(2), *f0.add(3), *f0.add(4), *f0.add(5), *f0.add(6), *f0.add(7),
        *f1.add(0), *f1.add(1), *f1.add(2), *f1.add(3), *f1.add(4), *f1.add(5), *f1.add(6), *f1.add(7));
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn h_k8_avx2(h: *const *mut [u32; 8], m: *const *const [u8; 64], c: *const u64, f0: *const u32, f1: *const u32) {
    bm::compress8_avx2(&mut **h.add(0), &mut **h.add(1), &mut **h.add(2), &mut **h.add(3), &mut **h.add(4), &mut **h.add(5), &mut **h.add(6), &mut **h.add(7),
        &**m.add(0), &**m.add(1), &**m.add(2), &**m.add(3), &**m.add(4), &**m.add(5), &**m.add(6), &**m.add(7),
        *c.add(0), *c.add(1), *c.add(2), *c.add(3), *c.add(4), *c.add(5), *c.add(6), *c.add(7),
        *f0.add(0), *f0.add(1), *f0.add(2), *f0.add(3), *f0.add(4), *f0.add(5), *f0.add(6), *f0.add(7),
        *f1.add(0), *f1.add(1), *f1.add(2), *f1.add(3), *f1.add(4), *f1.add(5), *f1.add(6), *f1.add(7));
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn h_k8v_avx2(h: *mut [b::AlignedWords8; 8], m: *const *const [u8; 64], cl: *const b::AlignedWords8, ch: *const b::AlignedWords8, f0: *const b::AlignedWords8, f1: *const b::AlignedWords8) {
    bm::compress8_vectorized_avx2(&mut *h, &**m.add(0), &**m.add(1), &**m.add(2), &**m.add(3), &**m.add(4), &**m.add(5), &**m.add(6), &**m.add(7), &*cl, &*ch, &*f0, &*f1);
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn h_k8t_avx2(h: *mut [__m256i; 8], m: *const [__m256i; 16], a: *const __m256i) {
    bm::compress8_transposed_all_avx2(&mut *h, &*m, ptr::read(a), ptr::read(a.add(1)), ptr::read(a.add(2)), ptr::read(a.add(3)));
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn h_k4t_sse41(h: *mut [__m128i; 8], m: *const *const [u8; 64], a: *const __m128i) {
    bm::compress4_transposed_sse41(&mut *h, &**m.add(0), &**m.add(1), &**m.add(2), &**m.add(3), ptr::read(a), ptr::read(a.add(1)), ptr::read(a.add(2)), ptr::read(a.add(3)));
}

pub type K1 = fn(&mut [u32; 8], &[u8; 64], u64, u32, u32);
pub type K1U = unsafe fn(&mut [u32; 8], &[u8; 64], u64, u32, u32);
#[no_mangle]
pub static KP_PORTABLE1: K1 = bm::compress_portable;
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub static KP_SSE41_1: K1U = bm::compress_sse41;
#[no_mangle]
pub static KP_PORTABLE8: fn(&mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], u64, u64, u64, u64, u64, u64, u64, u64, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32) = bm::compress8_portable;
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub static KP_AVX2_8: unsafe fn(&mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &mut [u32; 8], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], u64, u64, u64, u64, u64, u64, u64, u64, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32) = bm::compress8_avx2;
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub static KP_AVX2_8V: unsafe fn(&mut [b::AlignedWords8; 8], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &[u8; 64], &b::AlignedWords8, &b::AlignedWords8, &b::AlignedWords8, &b::AlignedWords8) = bm::compress8_vectorized_avx2;
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_sse2() -> bool {
    std::is_x86_feature_detected!("sse2")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_sse3() -> bool {
    std::is_x86_feature_detected!("sse3")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_ssse3() -> bool {
    std::is_x86_feature_detected!("ssse3")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_sse4_1() -> bool {
    std::is_x86_feature_detected!("sse4.1")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_sse4_2() -> bool {
    std::is_x86_feature_detected!("sse4.2")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_avx() -> bool {
    std::is_x86_feature_detected!("avx")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_avx2() -> bool {
    std::is_x86_feature_detected!("avx2")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_bmi1() -> bool {
    std::is_x86_feature_detected!("bmi1")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_bmi2() -> bool {
    std::is_x86_feature_detected!("bmi2")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_avx512f() -> bool {
    std::is_x86_feature_detected!("avx512f")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_avx512vl() -> bool {
    std::is_x86_feature_detected!("avx512vl")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_popcnt() -> bool {
    std::is_x86_feature_detected!("popcnt")
}
#[cfg(all(target_arch = "x86_64", feature = "std"))]
#[no_mangle]
pub unsafe extern "C" fn h_feat_fma() -> bool {
    std::is_x86_feature_detected!("fma")
}
