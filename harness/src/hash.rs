//! Digests: standards conformance, streaming, midstates, HMAC, tags.

use chf::{
    hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine,
};

use crate::spec::{self, Spec};
use crate::vp::*;

/// A block-based hash of the crate with the specification it has to meet.
pub trait Alg {
    type E: HashEngine;
    type X: Spec;
    fn mid_from(b: &[u8]) -> <Self::E as HashEngine>::Midstate;
    fn mid_bytes(m: &<Self::E as HashEngine>::Midstate, out: &mut [u8]);
    /// `Hash::hash` of the hash type that goes with the engine
    fn hash(data: &[u8], out: &mut [u8]);
    /// `Hash::from_engine`
    fn from_engine(e: Self::E, out: &mut [u8]);
    /// `Hash::engine`
    fn engine() -> Self::E;
}

macro_rules! alg {
    ($name:ident, $m:ident, $x:ident, $mid:ty, $from:expr) => {
        pub struct $name;
        impl Alg for $name {
            type E = $m::Engine;
            type X = spec::$x;
            fn mid_from(b: &[u8]) -> $mid {
                let mut a = [0u8; <spec::$x as Spec>::MID];
                a.copy_from_slice(b);
                $from(a)
            }
            fn mid_bytes(m: &$mid, out: &mut [u8]) { out.copy_from_slice(&m[..]) }
            fn hash(data: &[u8], out: &mut [u8]) {
                out.copy_from_slice(&$m::Hash::hash(data).to_byte_array())
            }
            fn from_engine(e: $m::Engine, out: &mut [u8]) {
                out.copy_from_slice(&$m::Hash::from_engine(e).to_byte_array())
            }
            fn engine() -> $m::Engine { $m::Hash::engine() }
        }
    };
}
alg!(ASha1, sha1, Sha1, [u8; 20], |a| a);
alg!(ASha256, sha256, Sha256, sha256::Midstate, sha256::Midstate::from_byte_array);
alg!(ASha384, sha384, Sha384, [u8; 64], |a| a);
alg!(ASha512, sha512, Sha512, [u8; 64], |a| a);
alg!(ASha512_256, sha512_256, Sha512_256, [u8; 64], |a| a);
alg!(ARipemd160, ripemd160, Ripemd160, [u8; 20], |a| a);

/// One-shot digest of `n` arbitrary bytes against the standard, through every entry point.
fn oneshot<A: Alg>() {
    let data = bytes(arg(0));
    let n = A::X::OUT;
    let mut want = [0u8; 64];
    spec::digest::<A::X>(data, &mut want);
    let mut got = [0u8; 64];
    A::hash(data, &mut got[..n]);
    out(&got[..n]);
    check_eq(&got[..n], &want[..n], 1);
    check_eq(<A::E as HashEngine>::hash(data).as_ref(), &want[..n], 2);
    let mut e = A::engine();
    e.input(data);
    A::from_engine(e, &mut got[..n]);
    check_eq(&got[..n], &want[..n], 3);
    let mut e = A::E::default();
    e.input(data);
    check_eq(e.finalize().as_ref(), &want[..n], 4);
}

/// A message of `n` bytes in one piece, all but the last `k` of them fixed.
fn long<A: Alg>() {
    let data = bytes(arg(0));
    let m = A::X::OUT;
    let mut want = [0u8; 64];
    spec::digest::<A::X>(data, &mut want);
    let mut got = [0u8; 64];
    A::hash(data, &mut got[..m]);
    check_eq(&got[..m], &want[..m], 1);
}

/// An arbitrary number of bytes that are a whole number of blocks, below 2^60.
pub fn sym_len(block: usize) -> u64 {
    let shift = block.trailing_zeros();
    (sym_u64() & ((1 << (60 - shift)) - 1)) << shift
}

/// Arbitrary chaining state and arbitrary length so far (whole blocks); `pre` bytes, then `n` bytes
/// are fed; the digest must be the one the standard gives from that state and length.
fn resume<A: Alg>() {
    let (pre, n) = (arg(0), arg(1));
    let m = A::mid_from(sym(A::X::MID));
    let len = sym_len(A::X::BLOCK);
    let data = bytes(pre + n);
    let mut e = A::E::from_midstate(m, len as usize);
    // where the engine says it is
    let before = e.n_bytes_hashed() as u64;
    let mut mid = [0u8; 64];
    A::mid_bytes(&e.midstate(), &mut mid[..A::X::MID]);
    if pre > 0 {
        e.input(own(&data[..pre]));
    }
    e.input(own(&data[pre..]));
    let mut want = [0u8; 64];
    spec::digest_from::<A::X>(A::X::from_mid(&mid[..A::X::MID]), before, data, &mut want);
    let d = e.finalize();
    out(d.as_ref());
    check_eq(d.as_ref(), &want[..A::X::OUT], 3);
}

/// As `resume`, on a machine whose CPU features are arbitrary too.
fn dispatch<A: Alg>() {
    #[cfg(feature = "std")]
    declare_features();
    resume::<A>()
}

#[cfg(feature = "std")]
fn declare_features() {
    macro_rules! f {
        ($($n:tt),*) => { $( feature($n, std::is_x86_feature_detected!($n)); )* };
    }
    f!("sse3", "ssse3", "sse4.1", "sse4.2", "sha", "avx", "avx2", "bmi1", "bmi2", "aes", "popcnt",
       "pclmulqdq", "avx512f", "avx512vl", "avx512bw", "avx512dq", "lzcnt", "fma", "movbe", "xsave");
}

/// The exported midstate is the standard's chaining value, whatever state was reached.
fn midstd<A: Alg>() {
    let blocks = arg(0);
    let (n, b) = (A::X::MID, A::X::BLOCK);
    let data = bytes(blocks * b);
    let mut e = A::E::new();
    e.input(data);
    let mut s = A::X::iv();
    for c in data.chunks(b) {
        A::X::block(&mut s, c);
    }
    let (mut want, mut got) = ([0u8; 64], [0u8; 64]);
    A::X::mid(&s, &mut want[..n]);
    A::mid_bytes(&e.midstate(), &mut got[..n]);
    check_eq(&got[..n], &want[..n], 1);
    check(e.n_bytes_hashed() == blocks * b, 2);
    // any state goes through a resumed engine unchanged
    let mid = sym(n);
    let len = sym_len(b);
    let e = A::E::from_midstate(A::mid_from(mid), len as usize);
    check(e.n_bytes_hashed() as u64 == len, 3);
    A::mid_bytes(&e.midstate(), &mut got[..n]);
    check_eq(&got[..n], mid, 4);
    // whatever the length
    let len = sym_u64() & !(b as u64 - 1);
    let e = A::E::from_midstate(A::mid_from(mid), len as usize);
    check(e.n_bytes_hashed() as u64 == len, 5);
    A::mid_bytes(&e.midstate(), &mut got[..n]);
    check_eq(&got[..n], mid, 6);
}

/// Resuming with a length that is not a whole number of blocks panics.
fn midpanic<A: Alg>() {
    let m = A::mid_from(sym(A::X::MID));
    let len = sym_u64();
    assume(len % A::X::BLOCK as u64 != 0);
    expect_panic(true);
    let e = A::E::from_midstate(m, len as usize);
    check(e.n_bytes_hashed() as u64 == len, 1);
}

#[export_name = "h_midpanic_inherent"]
pub extern "C" fn midpanic_inherent() {
    let m = sha256::Midstate::from_byte_array(sym_array());
    let len = sym_u64();
    assume(len % 64 != 0);
    expect_panic(true);
    let e = sha256::Engine::from_midstate(m, len as usize);
    check(e.n_bytes_hashed() as u64 == len, 1);
}

#[export_name = "h_midpanic_tagged"]
pub extern "C" fn midpanic_tagged() {
    let m = sha256::Midstate::from_byte_array(sym_array());
    let len = sym_u64();
    assume(len % 64 != 0);
    expect_panic(true);
    let e = <sha256t::Engine<Tg> as HashEngine>::from_midstate(m, len as usize);
    check(e.n_bytes_hashed() as u64 == len, 1);
}

/// The inherent resume function of SHA-256 does what the trait's does.
#[export_name = "h_mid_inherent"]
pub extern "C" fn mid_inherent() {
    let m = sha256::Midstate::from_byte_array(sym_array());
    let len = sym_len(64) as usize;
    let data = bytes(arg(0));
    let mut a = sha256::Engine::from_midstate(m, len);
    let mut b = <sha256::Engine as HashEngine>::from_midstate(m, len);
    check(a.n_bytes_hashed() == len, 1);
    check_eq(a.midstate().as_ref(), m.as_ref(), 2);
    a.input(data);
    b.input(data);
    check_eq(&a.finalize(), &b.finalize(), 3);
}

// ------------------------------------------------------------------------------------------------

/// Any engine, with a way to get into an arbitrary state after a whole number of blocks.
pub trait Any {
    type E: HashEngine;
    /// bytes after which a midstate may be taken
    const STEP: usize;
    fn fresh() -> Self::E { Self::E::new() }
    fn prep() {}
    fn start() -> Self::E;
    fn mid_eq(
        _a: &<Self::E as HashEngine>::Midstate,
        _b: &<Self::E as HashEngine>::Midstate,
        _id: u32,
    ) {
    }
}

impl<A: Alg> Any for A {
    type E = A::E;
    const STEP: usize = A::X::BLOCK;
    fn start() -> A::E {
        A::E::from_midstate(A::mid_from(sym(A::X::MID)), sym_len(A::X::BLOCK) as usize)
    }
    fn mid_eq(
        a: &<Self::E as HashEngine>::Midstate,
        b: &<Self::E as HashEngine>::Midstate,
        id: u32,
    ) {
        let n = A::X::MID;
        let (mut x, mut y) = ([0u8; 64], [0u8; 64]);
        A::mid_bytes(a, &mut x[..n]);
        A::mid_bytes(b, &mut y[..n]);
        check_eq(&x[..n], &y[..n], id);
    }
}

fn sip_mid() -> siphash24::State {
    let mut e = siphash24::Engine::with_keys(sym_u64(), sym_u64());
    e.input(&sym_array::<8>());
    e.midstate()
}

pub struct Sip;
impl Any for Sip {
    type E = siphash24::Engine;
    const STEP: usize = 8;
    fn start() -> siphash24::Engine {
        siphash24::Engine::from_midstate(sip_mid(), sym_len(8) as usize)
    }
}

pub struct Hm<A>(A);
impl<A: Any> Any for Hm<A> {
    type E = hmac::Engine<A::E>;
    const STEP: usize = A::STEP;
    fn start() -> Self::E {
        hmac::Engine::from_midstate(
            hmac::Midstate { inner: A::start().midstate(), outer: A::start().midstate() },
            sym_len(if A::STEP == 8 { 32 } else { A::STEP }) as usize,
        )
    }
    fn fresh() -> Self::E {
        A::prep();
        let key = bytes(arg(1));
        if arg(0) == 2 {
            key.fill(0x5c);
        }
        hmac::Engine::new(key)
    }
    fn mid_eq(
        a: &<Self::E as HashEngine>::Midstate,
        b: &<Self::E as HashEngine>::Midstate,
        id: u32,
    ) {
        A::mid_eq(&a.inner, &b.inner, id);
        A::mid_eq(&a.outer, &b.outer, id);
    }
}

/// A tag whose midstate is arbitrary.
#[derive(Clone)]
pub struct Tg;
static mut TAG_MID: [u8; 32] = [0; 32];
impl sha256t::Tag for Tg {
    fn engine() -> sha256t::Engine<Tg> {
        let m = sha256::Midstate::from_byte_array(unsafe { TAG_MID });
        <sha256t::Engine<Tg> as HashEngine>::from_midstate(m, 64)
    }
}
/// SHA-256 from the tag's state on.
pub struct TaggedSpec;
impl Spec for TaggedSpec {
    const BLOCK: usize = 64;
    const OUT: usize = 32;
    const MID: usize = 32;
    type S = <spec::Sha256 as Spec>::S;
    fn iv() -> Self::S { spec::Sha256::from_mid(unsafe { &*core::ptr::addr_of!(TAG_MID) }) }
    fn from_mid(mid: &[u8]) -> Self::S { spec::Sha256::from_mid(mid) }
    fn mid(s: &Self::S, out: &mut [u8]) { spec::Sha256::mid(s, out) }
    fn block(s: &mut Self::S, b: &[u8]) { spec::Sha256::block(s, b) }
    fn finish(s: Self::S, tail: &[u8], total: u64, out: &mut [u8]) {
        spec::Sha256::finish(s, tail, total, out)
    }
    fn before() -> u64 { 64 }
}
pub struct Tagged;
impl Any for Tagged {
    type E = sha256t::Engine<Tg>;
    const STEP: usize = 64;
    fn start() -> Self::E {
        <Self::E as HashEngine>::from_midstate(
            sha256::Midstate::from_byte_array(sym_array()),
            sym_len(64) as usize,
        )
    }
    fn prep() { unsafe { TAG_MID = if arg(0) == 2 { [0xa7; 32] } else { sym_array() } } }
    fn fresh() -> Self::E {
        Self::prep();
        Self::E::new()
    }
    fn mid_eq(a: &sha256::Midstate, b: &sha256::Midstate, id: u32) {
        check_eq(a.as_ref(), b.as_ref(), id);
    }
}

/// arg 0: 0 fresh, 1 arbitrary state, 2 fresh with nothing arbitrary about it
fn begin<S: Any>() -> S::E {
    if arg(0) == 1 {
        S::start()
    } else {
        S::fresh()
    }
}

/// What is fed before the `next` bytes: arbitrary, unless that would make a long computation
/// arbitrary.
fn lead(n: usize, next: usize) -> &'static mut [u8] {
    let b = bytes(n);
    if arg(0) == 2 && next > 400 {
        b.fill(0xd3);
    }
    b
}

/// arg 0: fresh or arbitrary start, 1: key length (HMAC), 2: piece before which a clone is taken,
/// 3: number of pieces, 4..: their sizes
fn stream<S: Any>() {
    let e0 = begin::<S>();
    let n0 = e0.n_bytes_hashed();
    let (fork, np) = (arg(2), arg(3));
    let mut total = 0;
    for i in 0..np {
        total += arg(4 + i as i32);
    }
    let data = bytes(total);
    let mut whole = e0.clone();
    whole.input(data);
    check(whole.n_bytes_hashed() == n0 + total, 1);
    let mut parts = e0.clone();
    let mut off = 0;
    for i in 0..np {
        if i == fork {
            // the clone goes its own way
            let alt = bytes(total - off);
            let mut c = parts.clone();
            check(c.n_bytes_hashed() == n0 + off, 2);
            let mut both = buf(total);
            both[..off].copy_from_slice(&data[..off]);
            both[off..].copy_from_slice(alt);
            let mut r = e0.clone();
            r.input(both);
            c.input(alt);
            check(c.n_bytes_hashed() == n0 + total, 3);
            check_eq(c.finalize().as_ref(), r.finalize().as_ref(), 4);
            both = buf(0);
            let _ = both;
        }
        let p = arg(4 + i as i32);
        parts.input(own(&data[off..off + p]));
        off += p;
        check(parts.n_bytes_hashed() == n0 + off, 5);
    }
    check_eq(parts.finalize().as_ref(), whole.finalize().as_ref(), 6);
}

/// arg 0: number of pieces, 1..: their sizes; every one-shot entry point gives the same digest
fn chunks<S: Any>() {
    let np = arg(0);
    let mut total = 0;
    for i in 0..np {
        total += arg(1 + i as i32);
    }
    let data: &'static [u8] = bytes(total);
    let d = S::E::hash(data);
    let mut off = 0;
    let d2 = S::E::hash_byte_chunks((0..np).map(|i| {
        let p = arg(1 + i as i32);
        off += p;
        &*own(&data[off - p..off])
    }));
    check_eq(d2.as_ref(), d.as_ref(), 1);
    let mut e = S::E::default();
    e.input(data);
    check_eq(e.finalize().as_ref(), d.as_ref(), 2);
    let mut e = S::E::new();
    e.input(data);
    check_eq(e.finalize().as_ref(), d.as_ref(), 3);
}

/// arg 0: fresh or arbitrary start, 1: key length (HMAC), 2: whole steps hashed, 3: bytes fed after
/// resuming
fn mid<S: Any>() {
    let mut e = begin::<S>();
    e.input(lead(arg(2) * S::STEP, arg(3)));
    let n = e.n_bytes_hashed();
    let r0 = S::E::from_midstate(e.midstate(), n);
    check(r0.n_bytes_hashed() == n, 1);
    S::mid_eq(&r0.midstate(), &e.midstate(), 2);
    let data = bytes(arg(3));
    let mut r = r0;
    r.input(data);
    e.input(data);
    check(r.n_bytes_hashed() == n + data.len(), 3);
    check(e.n_bytes_hashed() == n + data.len(), 4);
    check_eq(r.finalize().as_ref(), e.finalize().as_ref(), 5);
}

// ------------------------------------------------------------------------------------------------

#[cfg(any(feature = "std", feature = "io"))]
mod wr {
    use super::*;

    /// arg 0: fresh or arbitrary start, 1: key length, 2: fill, 3 and 4: sizes written
    #[cfg(feature = "std")]
    pub fn wstd<S: Any>()
    where
        S::E: std::io::Write,
    {
        use std::io::Write;
        let mut e = begin::<S>();
        e.input(lead(arg(2), arg(3)));
        let (d1, d2) = (bytes(arg(3)), bytes(arg(4)));
        if arg(0) != 1 {
            vectored::<S>(&e, d1, d2);
        }
        let mut a = e.clone();
        e.input(d1);
        match a.write(d1) {
            Ok(k) => check(k == d1.len(), 1),
            Err(_) => check(false, 2),
        }
        check(a.n_bytes_hashed() == e.n_bytes_hashed(), 3);
        check_eq(a.clone().finalize().as_ref(), e.clone().finalize().as_ref(), 4);
        check(a.flush().is_ok(), 5);
        check(a.n_bytes_hashed() == e.n_bytes_hashed(), 6);
        check_eq(a.clone().finalize().as_ref(), e.clone().finalize().as_ref(), 7);
        e.input(d2);
        check(a.write_all(d2).is_ok(), 8);
        check(a.n_bytes_hashed() == e.n_bytes_hashed(), 9);
        check_eq(a.finalize().as_ref(), e.finalize().as_ref(), 10);
    }

    /// What a gathering write reports is what it fed.
    #[cfg(feature = "std")]
    fn vectored<S: Any>(e: &S::E, d1: &[u8], d2: &[u8])
    where
        S::E: std::io::Write,
    {
        use std::io::{IoSlice, Write};
        let (mut a, mut e) = (e.clone(), e.clone());
        match a.write_vectored(&[IoSlice::new(d1), IoSlice::new(d2)]) {
            Ok(k) => {
                check(k <= d1.len() + d2.len(), 11);
                check(k >= d1.len(), 12);
                check(k > 0 || d1.len() + d2.len() == 0, 13);
                e.input(d1);
                e.input(&d2[..k - d1.len()]);
                check(a.n_bytes_hashed() == e.n_bytes_hashed(), 14);
                check_eq(a.finalize().as_ref(), e.finalize().as_ref(), 15);
            }
            Err(_) => check(false, 16),
        }
    }

    pub fn wio<S: Any>()
    where
        S::E: bitcoin_io::Write,
    {
        use bitcoin_io::Write;
        let mut e = begin::<S>();
        e.input(lead(arg(2), arg(3)));
        let (d1, d2) = (bytes(arg(3)), bytes(arg(4)));
        let mut a = e.clone();
        e.input(d1);
        match a.write(d1) {
            Ok(k) => check(k == d1.len(), 1),
            Err(_) => check(false, 2),
        }
        check(a.n_bytes_hashed() == e.n_bytes_hashed(), 3);
        check_eq(a.clone().finalize().as_ref(), e.clone().finalize().as_ref(), 4);
        check(a.flush().is_ok(), 5);
        check(a.n_bytes_hashed() == e.n_bytes_hashed(), 6);
        check_eq(a.clone().finalize().as_ref(), e.clone().finalize().as_ref(), 7);
        e.input(d2);
        check(a.write_all(d2).is_ok(), 8);
        check(a.n_bytes_hashed() == e.n_bytes_hashed(), 9);
        check_eq(a.finalize().as_ref(), e.finalize().as_ref(), 10);
    }
}

// ------------------------------------------------------------------------------------------------

pub trait HasSpec {
    type E: HashEngine;
    type X: Spec;
    const BLOCK: usize;
    fn prepare() {}
}
impl<A: Alg> HasSpec for A {
    type E = A::E;
    type X = A::X;
    const BLOCK: usize = A::X::BLOCK;
}
impl HasSpec for Tagged {
    type E = sha256t::Engine<Tg>;
    type X = TaggedSpec;
    const BLOCK: usize = 64;
    fn prepare() { unsafe { TAG_MID = if arg(0) > 400 || arg(2) > 400 { [0xa7; 32] } else { sym_array() } } }
}
impl HasSpec for Sip {
    type E = siphash24::Engine;
    type X = spec::SipHash;
    const BLOCK: usize = 32;
}

/// arg 0: key length, 1 and 2: sizes of the two pieces of the message
fn mac<A: HasSpec>() {
    A::prepare();
    let key = bytes(arg(0));
    let n = arg(1);
    let msg = bytes(n + arg(2));
    let m = A::X::OUT;
    let mut want = [0u8; 64];
    spec::hmac::<A::X>(A::BLOCK, key, msg, &mut want);
    let mut e = hmac::Engine::<A::E>::new(key);
    if n > 0 {
        e.input(own(&msg[..n]));
    }
    e.input(own(&msg[n..]));
    let d = e.finalize();
    out(d.as_ref());
    check_eq(d.as_ref(), &want[..m], 1);
    if key.is_empty() {
        let mut e = <hmac::Engine<A::E> as Default>::default();
        e.input(msg);
        check_eq(e.finalize().as_ref(), &want[..m], 2);
        let mut e = <hmac::Engine<A::E> as HashEngine>::new();
        e.input(msg);
        check_eq(e.finalize().as_ref(), &want[..m], 3);
        check_eq(<hmac::Engine<A::E> as HashEngine>::hash(msg).as_ref(), &want[..m], 4);
    }
}

/// The HMAC hash type made from an engine holds its digest.
macro_rules! machash {
    ($($name:ident $m:ident $n:literal $x:ident),*) => {
        $(
            #[export_name = concat!("h_machash_", stringify!($name))]
            pub extern "C" fn $name() {
                let key = bytes(arg(0));
                let msg = bytes(arg(1));
                let mut want = [0u8; 64];
                spec::hmac::<spec::$x>(
                    if $n == 8 { 32 } else { <spec::$x as Spec>::BLOCK }, key, msg, &mut want);
                let mut e = hmac::Engine::<$m::Engine>::new(key);
                e.input(msg);
                let h = hmac::Hash::<$n>::from_engine(e);
                check_eq(h.as_bytes(), &want[..$n], 1);
                // Hash::engine is the engine without a key of its own
                let mut e = hmac::Hash::<$n>::engine::<hmac::Engine<$m::Engine>>();
                e.input(msg);
                spec::hmac::<spec::$x>(
                    if $n == 8 { 32 } else { <spec::$x as Spec>::BLOCK }, &[], msg, &mut want);
                check_eq(hmac::Hash::<$n>::from_engine(e).as_bytes(), &want[..$n], 2);
            }
        )*
    };
}
pub mod machashes {
    use super::*;
    machash!(sha1 sha1 20 Sha1, sha256 sha256 32 Sha256, sha384 sha384 48 Sha384,
        sha512 sha512 64 Sha512, sha512_256 sha512_256 32 Sha512_256,
        ripemd160 ripemd160 20 Ripemd160, siphash24 siphash24 8 SipHash);
}

// ------------------------------------------------------------------------------------------------

/// SipHash of `n` bytes through every entry point.
#[export_name = "h_sip"]
pub extern "C" fn sip() {
    let (k0, k1) = (sym_u64(), sym_u64());
    let data = bytes(arg(0));
    let st = spec::sip_init(k0, k1);
    let mut want = [0u8; 8];
    spec::digest_from::<spec::SipHash>(st, 0, data, &mut want);
    let n = u64::from_le_bytes(want);
    let h = siphash24::Hash::hash_with_keys(k0, k1, data);
    out(h.as_bytes());
    check_eq(h.as_bytes(), &want, 1);
    check(siphash24::Hash::hash_to_u64_with_keys(k0, k1, data) == n, 2);
    let mut e = siphash24::Engine::with_keys(k0, k1);
    check(e.keys() == (k0, k1), 3);
    e.input(data);
    check(siphash24::Hash::from_engine_to_u64(e.clone()) == n, 4);
    check_eq(siphash24::Hash::from_engine(e.clone()).as_bytes(), &want, 5);
    check_eq(&e.finalize(), &want, 6);
    check(h.as_u64() == n, 7);
    check_eq(siphash24::Hash::from_u64(n).as_bytes(), &want, 8);
}

/// The engines without a key use the all-zero key.
#[export_name = "h_sip_default"]
pub extern "C" fn sip_default() {
    let data = bytes(arg(0));
    let mut want = [0u8; 8];
    spec::digest_from::<spec::SipHash>(spec::sip_init(0, 0), 0, data, &mut want);
    check_eq(siphash24::Hash::hash(data).as_bytes(), &want, 1);
    check_eq(&<siphash24::Engine as HashEngine>::hash(data), &want, 2);
    let mut e = siphash24::Engine::new();
    check(e.keys() == (0, 0), 3);
    e.input(data);
    check_eq(&e.finalize(), &want, 4);
    let mut e = siphash24::Engine::default();
    check(e.keys() == (0, 0), 5);
    e.input(data);
    check_eq(&e.finalize(), &want, 6);
    let mut e = siphash24::Hash::engine();
    e.input(data);
    check_eq(&e.finalize(), &want, 7);
    let x = sym_u64();
    check(siphash24::Hash::from_u64(x).as_u64() == x, 8);
    check_eq(siphash24::Hash::from_u64(x).as_bytes(), &x.to_le_bytes(), 9);
    let b = sym_array::<8>();
    check(siphash24::Hash::from_byte_array(b).as_u64() == u64::from_le_bytes(b), 10);
}

/// From an arbitrary (reachable) state and an arbitrary length.
#[export_name = "h_resume_siphash24"]
pub extern "C" fn sip_resume() {
    let (pre, n) = (arg(0), arg(1));
    let (k0, k1) = (sym_u64(), sym_u64());
    let first = sym_array::<8>();
    let mut st = spec::sip_init(k0, k1);
    spec::SipHash::block(&mut st, &first);
    let mut e = siphash24::Engine::with_keys(k0, k1);
    e.input(&first);
    let mut e = siphash24::Engine::from_midstate(e.midstate(), sym_len(8) as usize);
    let before = e.n_bytes_hashed() as u64;
    let data = bytes(pre + n);
    e.input(own(&data[..pre]));
    e.input(own(&data[pre..]));
    let mut want = [0u8; 8];
    spec::digest_from::<spec::SipHash>(st, before, data, &mut want);
    check(siphash24::Hash::from_engine_to_u64(e.clone()) == u64::from_le_bytes(want), 1);
    check_eq(&e.finalize(), &want, 2);
}

// ------------------------------------------------------------------------------------------------

/// The const-context hash of `n` bytes.
#[export_name = "h_const"]
pub extern "C" fn const_hash() {
    let data = bytes(arg(0));
    let mut want = [0u8; 32];
    spec::digest::<spec::Sha256>(data, &mut want);
    let h = sha256::Hash::const_hash(data);
    out(h.as_bytes());
    check_eq(h.as_bytes(), &want, 1);
    check_eq(sha256::Hash::hash(data).as_bytes(), h.as_bytes(), 2);
}

/// Const-context hash of a long message, all but the last bytes fixed.
#[export_name = "h_const_long"]
pub extern "C" fn const_long() {
    let data = bytes(arg(0));
    let mut want = [0u8; 32];
    spec::digest::<spec::Sha256>(data, &mut want);
    check_eq(sha256::Hash::const_hash(data).as_bytes(), &want, 1);
}

/// Midstate of a tag of `n` bytes, and the tagged hash of `m` bytes.
#[export_name = "h_tag"]
pub extern "C" fn tag() {
    let tag = bytes(arg(0));
    let msg = bytes(arg(1));
    let mut t = [0u8; 32];
    spec::digest::<spec::Sha256>(tag, &mut t);
    let mut two = [0u8; 64];
    two[..32].copy_from_slice(&t);
    two[32..].copy_from_slice(&t);
    let mut s = spec::Sha256::iv();
    spec::Sha256::block(&mut s, &two);
    let mut mid = [0u8; 32];
    spec::Sha256::mid(&s, &mut mid);
    let m = sha256::Midstate::hash_tag(tag);
    out(m.as_ref());
    check_eq(m.as_ref(), &mid, 1);
    unsafe { TAG_MID = m.to_byte_array() };
    let mut want = [0u8; 32];
    spec::digest_from::<spec::Sha256>(s, 64, msg, &mut want);
    let h = sha256t::Hash::<Tg>::hash(msg);
    check_eq(h.as_bytes(), &want, 2);
    let mut e = sha256t::Hash::<Tg>::engine();
    e.input(msg);
    check_eq(sha256t::Hash::<Tg>::from_engine(e).as_bytes(), &want, 3);
    let mut e = sha256t::Engine::<Tg>::default();
    e.input(msg);
    check_eq(&e.finalize(), &want, 4);
    check_eq(&<sha256t::Engine<Tg> as HashEngine>::hash(msg), &want, 5);
}

/// A tagged hash from an arbitrary tag midstate.
#[export_name = "h_tagmsg"]
pub extern "C" fn tagmsg() {
    let m: [u8; 32] = sym_array();
    let (pre, n) = (arg(0), arg(1));
    let msg = bytes(pre + n);
    unsafe { TAG_MID = m };
    let mut want = [0u8; 32];
    spec::digest_from::<spec::Sha256>(spec::Sha256::from_mid(&m), 64, msg, &mut want);
    check_eq(sha256t::Hash::<Tg>::hash(msg).as_bytes(), &want, 1);
    let mut e = sha256t::Engine::<Tg>::new();
    e.input(own(&msg[..pre]));
    e.input(own(&msg[pre..]));
    check_eq(&e.finalize(), &want, 2);
}

/// Really evaluated at compile time.
#[export_name = "h_consteval"]
pub extern "C" fn consteval() {
    const fn pattern<const N: usize>() -> [u8; N] {
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N {
            a[i] = (i * 11 + 3) as u8;
            i += 1;
        }
        a
    }
    macro_rules! at {
        ($($n:literal)*) => {
            $(
                {
                    const H: sha256::Hash = sha256::Hash::const_hash(&pattern::<$n>());
                    const T: sha256::Midstate = sha256::Midstate::hash_tag(&pattern::<$n>());
                    check_eq(H.as_bytes(), sha256::Hash::hash(&pattern::<$n>()).as_bytes(), $n);
                    check_eq(T.as_ref(),
                        sha256::Midstate::hash_tag(&pattern::<$n>()).as_ref(), $n + 1000);
                }
            )*
        };
    }
    at!(0 1 3 31 55 56 57 63 64 65 119 120 128 130);
}

// ------------------------------------------------------------------------------------------------

macro_rules! entries {
    ($f:ident: $($name:ident $t:ty),* $(,)?) => {
        $(
            #[export_name = concat!("h_", stringify!($f), "_", stringify!($name))]
            pub extern "C" fn $name() { $f::<$t>() }
        )*
    };
}

macro_rules! block_entries {
    ($($f:ident),*) => {
        $(
            pub mod $f {
                use super::*;
                use super::$f;
                entries!($f: sha1 ASha1, sha256 ASha256, sha384 ASha384, sha512 ASha512,
                    sha512_256 ASha512_256, ripemd160 ARipemd160);
            }
        )*
    };
}
block_entries!(oneshot, long, resume, dispatch, midstd, midpanic);

macro_rules! all_entries {
    ($($f:ident),*) => {
        $(
            pub mod $f {
                use super::*;
                use super::$f;
                entries!($f: sha1 ASha1, sha256 ASha256, sha384 ASha384, sha512 ASha512,
                    sha512_256 ASha512_256, ripemd160 ARipemd160, siphash24 Sip, tagged Tagged,
                    hmac_sha1 Hm<ASha1>, hmac_sha256 Hm<ASha256>, hmac_sha384 Hm<ASha384>,
                    hmac_sha512 Hm<ASha512>, hmac_sha512_256 Hm<ASha512_256>,
                    hmac_ripemd160 Hm<ARipemd160>, hmac_siphash24 Hm<Sip>, hmac_tagged Hm<Tagged>);
            }
        )*
    };
}
all_entries!(stream, chunks, mid);

pub mod macs {
    use super::*;
    entries!(mac: sha1 ASha1, sha256 ASha256, sha384 ASha384, sha512 ASha512,
        sha512_256 ASha512_256, ripemd160 ARipemd160, siphash24 Sip, tagged Tagged);
}

#[cfg(any(feature = "std", feature = "io"))]
pub mod writers {
    use super::wr::*;
    use super::*;
    macro_rules! writer_entries {
        ($f:ident) => {
            entries!($f: sha1 ASha1, sha256 ASha256, sha512 ASha512, ripemd160 ARipemd160,
                siphash24 Sip, tagged Tagged, hmac_sha1 Hm<ASha1>, hmac_sha256 Hm<ASha256>,
                hmac_sha384 Hm<ASha384>, hmac_sha512 Hm<ASha512>,
                hmac_sha512_256 Hm<ASha512_256>, hmac_ripemd160 Hm<ARipemd160>,
                hmac_siphash24 Hm<Sip>, hmac_tagged Hm<Tagged>);
        };
    }
    pub mod io {
        use super::*;
        writer_entries!(wio);
    }
    #[cfg(feature = "std")]
    pub mod std {
        use super::*;
        writer_entries!(wstd);
    }
}
