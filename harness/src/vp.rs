//! Interface to the machinery that runs these harnesses: the symbolic interpreter, where every
//! `sym` byte is a free variable and every `check` a solver query, or the native replayer, where
//! the bytes come from a counterexample file.

extern "C" {
    fn vp_arg(i: i32) -> i64;
    fn vp_alloc(n: usize) -> *mut u8;
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_assume(c: bool);
    fn vp_check(c: bool, id: u32);
    fn vp_check_eq(a: *const u8, b: *const u8, n: usize, id: u32);
    fn vp_expect_panic(on: bool);
    fn vp_ct(on: bool);
    fn vp_out(p: *const u8, n: usize);
    fn vp_reach(id: u32);
    fn vp_feature(p: *const u8, n: usize, on: bool);
    fn vp_unsupported();
}

pub fn arg(i: i32) -> usize { unsafe { vp_arg(i) as usize } }

/// A buffer of exactly `n` bytes, byte aligned, nothing readable on either side of it.
pub fn buf(n: usize) -> &'static mut [u8] {
    unsafe { core::slice::from_raw_parts_mut(vp_alloc(n), n) }
}

/// `n` arbitrary bytes.
pub fn sym(n: usize) -> &'static mut [u8] {
    let b = buf(n);
    unsafe { vp_sym(b.as_mut_ptr(), n) };
    b
}

/// A message: `n` arbitrary bytes, or, for more than 400, a fixed pattern with an arbitrary end.
pub fn bytes(n: usize) -> &'static mut [u8] {
    if n <= 400 {
        return sym(n);
    }
    pattern(n)
}

/// A fixed pattern of at least 251 bytes, the last 9 of them arbitrary.
fn pattern(n: usize) -> &'static mut [u8] {
    let b = buf(n);
    // the period is no multiple of a block
    let mut k = 251;
    for i in 0..k {
        b[i] = (i * 7 + 1) as u8;
    }
    while k < n {
        let m = core::cmp::min(k, n - k);
        let (x, y) = b.split_at_mut(k);
        y[..m].copy_from_slice(&x[..m]);
        k += m;
    }
    unsafe { vp_sym(b.as_mut_ptr().add(n - 9), 9) };
    b
}

/// `n` arbitrary bytes, or, for more than 260, a fixed pattern with three arbitrary places.
pub fn sparse(n: usize) -> &'static mut [u8] {
    if n <= 260 {
        return sym(n);
    }
    let b = pattern(n);
    unsafe {
        vp_sym(b.as_mut_ptr(), 9);
        vp_sym(b.as_mut_ptr().add(n / 2 - 4), 9);
    }
    b
}

/// The same bytes in a buffer of their own, nothing readable on either side of it.
pub fn own(b: &[u8]) -> &'static mut [u8] {
    let c = buf(b.len());
    c.copy_from_slice(b);
    c
}

pub fn sym_array<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    unsafe { vp_sym(a.as_mut_ptr(), N) };
    a
}

pub fn sym_u64() -> u64 { u64::from_le_bytes(sym_array::<8>()) }

pub fn assume(c: bool) { unsafe { vp_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { vp_check(c, id) } }
pub fn check_eq(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    unsafe { vp_check_eq(a.as_ptr(), b.as_ptr(), a.len(), id) }
}
/// Until switched off, a panic is what must happen.
pub fn expect_panic(on: bool) { unsafe { vp_expect_panic(on) } }
/// While on, control flow and addresses must not depend on symbolic data.
pub fn ct(on: bool) { unsafe { vp_ct(on) } }
/// Shows a result (used when harnesses are run on concrete vectors).
pub fn out(b: &[u8]) { unsafe { vp_out(b.as_ptr(), b.len()) } }
/// Marks a point that some input must reach.
pub fn reach(id: u32) { unsafe { vp_reach(id) } }
/// Tells the interpreter whether the (symbolic) CPU reports this feature.
#[allow(dead_code)]
pub fn feature(name: &str, on: bool) { unsafe { vp_feature(name.as_ptr(), name.len(), on) } }
/// The harness cannot judge this case.
#[allow(dead_code)]
pub fn unsupported() { unsafe { vp_unsupported() } }
