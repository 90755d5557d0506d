//! Hash values: text, bytes, comparison, serde, schema, and the fixed-time comparison.

use core::cmp::Ordering;
use core::fmt::{self, Debug, Display, LowerHex, UpperHex, Write};
use core::hash::{Hash, Hasher};
use core::str::FromStr;

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};

use crate::hash::Tg;
use crate::vp::*;

/// A hash or midstate type.
pub trait V:
    Copy + Ord + Hash + Display + Debug + LowerHex + UpperHex + FromStr + AsRef<[u8]> + 'static
{
    const N: usize;
    /// the alternate forms start with 0x
    const PREFIX: bool = true;
    fn new(b: &[u8]) -> Self;
    /// the bytes, taken out the simplest way the type has
    fn get(&self, out: &mut [u8]);
    fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError>;
    fn at(&self, i: usize) -> u8;
    fn range(&self, a: usize, b: usize) -> &[u8];
    fn from(&self, a: usize) -> &[u8];
    fn to(&self, b: usize) -> &[u8];
    fn full(&self) -> &[u8];
    /// what only hash types (not midstates) have
    fn views(_b: &[u8], _c: &[u8]) {}
    /// indexing that only some types have
    fn more_index(&self, _a: usize, _b: usize, _want: &[u8]) {}
    fn zero() -> Option<Self> { None }
    fn default() -> Option<Self> { None }
    fn parse_hex(_s: &str) -> Option<Option<Self>> { None }
}

macro_rules! v_common {
    ($n:expr) => {
        const N: usize = $n;
        fn new(b: &[u8]) -> Self {
            let mut a = [0u8; $n];
            a.copy_from_slice(b);
            Self::from_byte_array(a)
        }
        fn get(&self, out: &mut [u8]) { out.copy_from_slice(&self.to_byte_array()) }
        fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError> { Self::from_slice(b) }
        fn at(&self, i: usize) -> u8 { self[i] }
        fn range(&self, a: usize, b: usize) -> &[u8] { &self[a..b] }
        fn from(&self, a: usize) -> &[u8] { &self[a..] }
        fn to(&self, b: usize) -> &[u8] { &self[..b] }
        fn full(&self) -> &[u8] { &self[..] }
    };
}
macro_rules! v_views {
    ($n:expr) => {
        fn views(b: &[u8], c: &[u8]) {
            let mut a = [0u8; $n];
            a.copy_from_slice(b);
            let h = Self::from_byte_array(a);
            check_eq(h.as_byte_array(), b, 30);
            check_eq(h.as_bytes(), b, 31);
            #[cfg(feature = "std")]
            check_eq(&h.to_bytes(), b, 32);
            // a shared view
            let r = Self::from_bytes_ref(&a);
            check_eq(&r.to_byte_array(), b, 33);
            check(r as *const Self as usize == &a as *const _ as usize, 34);
            check(*r == h, 35);
            // an exclusive view: written through, either way
            let mut c1 = [0u8; $n];
            c1.copy_from_slice(c);
            let hc = Self::from_byte_array(c1);
            {
                let m = Self::from_bytes_mut(&mut a);
                check_eq(&m.to_byte_array(), b, 36);
                *m = hc;
            }
            check_eq(&a, c, 37);
            a.copy_from_slice(b);
            check_eq(&Self::from_bytes_mut(&mut a).to_byte_array(), b, 38);
            check(core::mem::size_of::<Self>() == $n, 39);
        }
        fn zero() -> Option<Self> { Some(Self::all_zeros()) }
    };
}
macro_rules! v_index {
    () => {
        fn more_index(&self, a: usize, b: usize, want: &[u8]) {
            if a <= b && b < want.len() {
                check_eq(&self[a..=b], &want[a..=b], 50);
            }
            if b < want.len() {
                check_eq(&self[..=b], &want[..=b], 51);
            }
        }
    };
}
macro_rules! hash_v {
    ($($t:ty, $n:expr;)*) => {
        $(
            impl V for $t {
                v_common!($n);
                v_views!($n);
                v_index!();
            }
        )*
    };
}
hash_v! {
    sha1::Hash, 20;
    sha256::Hash, 32;
    sha384::Hash, 48;
    sha512::Hash, 64;
    sha512_256::Hash, 32;
    ripemd160::Hash, 20;
    siphash24::Hash, 8;
}
impl V for sha256t::Hash<Tg> {
    v_common!(32);
    v_views!(32);
    v_index!();
    fn default() -> Option<Self> { Some(Default::default()) }
}
impl V for sha256::Midstate {
    v_common!(32);
    v_index!();
    fn default() -> Option<Self> { Some(Default::default()) }
    fn parse_hex(s: &str) -> Option<Option<Self>> {
        Some(<sha256::Midstate as chf::hex::FromHex>::from_hex(s).ok())
    }
}
macro_rules! mac_v {
    ($($n:literal)*) => {
        $(
            impl V for hmac::Hash<$n> {
                const PREFIX: bool = false;
                v_common!($n);
                v_views!($n);
            }
        )*
    };
}
mac_v!(1 8 20 32 48 64 128);

// ------------------------------------------------------------------------------------------------

/// A fixed buffer to print into.
pub struct W {
    b: [u8; 320],
    n: usize,
}
impl W {
    pub fn new() -> W { W { b: [0; 320], n: 0 } }
    pub fn get(&self) -> &[u8] { &self.b[..self.n] }
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        if s.len() > 320 - self.n {
            return Err(fmt::Error);
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        Ok(())
    }
}

/// The hex digits of `b`.
fn hex_of(b: &[u8], upper: bool, out: &mut [u8]) {
    for i in 0..b.len() {
        for (j, d) in [b[i] >> 4, b[i] & 15].iter().enumerate() {
            out[2 * i + j] = b'0' + d + if *d > 9 { if upper { 7 } else { 39 } } else { 0 };
        }
    }
}

/// arg 0: which form
fn text<T: V>() {
    let b = sym(T::N);
    let v = T::new(b);
    let n = 2 * T::N;
    let mut want = [0u8; 260];
    let f = arg(0);
    hex_of(b, f == 2 || f == 6, &mut want[2..2 + n]);
    want[0] = b'0';
    want[1] = b'x';
    let mut w = W::new();
    let (r, alt) = match f {
        0 => (write!(w, "{}", v), false),
        1 => (write!(w, "{:x}", v), false),
        2 => (write!(w, "{:X}", v), false),
        3 => (write!(w, "{:?}", v), true),
        4 => (write!(w, "{:#}", v), true),
        5 => (write!(w, "{:#x}", v), true),
        6 => (write!(w, "{:#X}", v), true),
        _ => (write!(w, "{:#?}", v), true),
    };
    check(r.is_ok(), 1);
    out(w.get());
    if alt && T::PREFIX {
        check_eq(w.get(), &want[..2 + n], 2);
    } else {
        check_eq(w.get(), &want[2..2 + n], 3);
    }
    // and back
    if f < 3 {
        match T::from_str(unsafe { core::str::from_utf8_unchecked(w.get()) }) {
            Ok(p) => {
                let mut o = [0u8; 128];
                p.get(&mut o[..T::N]);
                check_eq(&o[..T::N], b, 4);
            }
            Err(_) => check(false, 5),
        }
    }
}

/// (is a hex digit, its value)
fn digit(c: u8) -> (bool, u8) {
    let n = c.wrapping_sub(b'0');
    let l = (c | 0x20).wrapping_sub(b'a');
    (n < 10 || l < 6, if n < 10 { n } else { l.wrapping_add(10) & 15 })
}

/// An arbitrary string of `n` bytes with (kind >= 2) one non-ASCII character of that many bytes at
/// `pos`, the rest ASCII.
fn string(n: usize, kind: usize, pos: usize) -> &'static [u8] {
    let s = sym(n);
    for b in s.iter_mut() {
        *b &= 0x7f;
    }
    if kind >= 2 {
        let x = sym_array::<4>();
        for i in 1..kind {
            s[pos + i] = 0x80 | x[i] & 0x3f;
        }
        match kind {
            2 => {
                s[pos] = 0xc2 + x[0] % 30;
            }
            3 => {
                s[pos] = 0xe1 + x[0] % 12;
            }
            _ => {
                s[pos] = 0xf1 + x[0] % 3;
            }
        }
    }
    s
}

fn denotes(s: &[u8], n: usize, want: &mut [u8]) -> bool {
    let mut ok = s.len() == 2 * n;
    if ok {
        for i in 0..n {
            let (h, l) = (digit(s[2 * i]), digit(s[2 * i + 1]));
            ok = ok & h.0 & l.0;
            want[i] = h.1 << 4 | l.1;
        }
    }
    ok
}

/// arg 0: length of the string, 1: kind, 2: position
fn parse<T: V>() {
    let s = string(arg(0), arg(1), arg(2));
    let mut want = [0u8; 128];
    let ok = denotes(s, T::N, &mut want);
    let txt = unsafe { core::str::from_utf8_unchecked(s) };
    let mut o = [0u8; 128];
    match T::from_str(txt) {
        Ok(v) => {
            reach(1);
            check(ok, 1);
            v.get(&mut o[..T::N]);
            check_eq(&o[..T::N], &want[..T::N], 2);
        }
        Err(_) => {
            reach(2);
            check(!ok, 3);
        }
    }
    if let Some(r) = T::parse_hex(txt) {
        match r {
            Some(v) => {
                check(ok, 4);
                v.get(&mut o[..T::N]);
                check_eq(&o[..T::N], &want[..T::N], 5);
            }
            None => check(!ok, 6),
        }
    }
}

// ------------------------------------------------------------------------------------------------

fn decimal(mut n: usize, out: &mut [u8; 20]) -> usize {
    let mut k = 0;
    loop {
        out[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
        if n == 0 {
            break;
        }
    }
    out[..k].reverse();
    k
}

/// `n` appears in the message as a number of its own.
fn mentions(msg: &[u8], n: usize) -> bool {
    let mut d = [0u8; 20];
    let k = decimal(n, &mut d);
    let dig = |i: usize| i < msg.len() && msg[i].is_ascii_digit();
    (0..msg.len()).any(|i| {
        i + k <= msg.len() && msg[i..i + k] == d[..k] && (i == 0 || !dig(i - 1)) && !dig(i + k)
    })
}

/// arg 0: length of the slice
fn slice<T: V>() {
    let n = arg(0);
    let b = sym(n);
    match T::from_slice(b) {
        Ok(v) => {
            check(n == T::N, 1);
            let mut o = [0u8; 128];
            v.get(&mut o[..T::N]);
            check_eq(&o[..T::N], b, 2);
        }
        Err(e) => {
            check(n != T::N, 3);
            check(e.expected_length() == T::N, 4);
            check(e.invalid_length() == n, 5);
            let mut w = W::new();
            check(write!(w, "{}", e).is_ok(), 6);
            check(mentions(w.get(), n) && mentions(w.get(), T::N), 7);
            check(e == chf::FromSliceError::new(n, T::N), 8);
        }
    }
}

/// Views and indexing. arg 0, 1: bounds of the ranges
fn views<T: V>() {
    let b = sym(T::N);
    let c = sym(T::N);
    T::views(b, c);
    let v = T::new(b);
    let mut o = [0u8; 128];
    v.get(&mut o[..T::N]);
    check_eq(&o[..T::N], b, 1);
    check_eq(v.as_ref(), b, 2);
    check_eq(v.full(), b, 3);
    for i in 0..T::N {
        check(v.at(i) == b[i], 4);
    }
    let (x, y) = (arg(0).min(T::N), arg(1).min(T::N));
    check_eq(v.range(x, y), &b[x..y], 5);
    check_eq(v.from(x), &b[x..], 6);
    check_eq(v.to(y), &b[..y], 7);
    v.more_index(x, y, b);
    if let Some(z) = T::zero() {
        z.get(&mut o[..T::N]);
        check_eq(&o[..T::N], &[0u8; 128][..T::N], 8);
    }
}

// ------------------------------------------------------------------------------------------------

/// Keeps everything a value feeds to a hasher.
#[derive(Clone)]
struct Rec {
    b: [u8; 256],
    n: usize,
    calls: usize,
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, x: &[u8]) {
        self.calls += 1;
        for i in x {
            if self.n < 256 {
                self.b[self.n] = *i;
            }
            self.n += 1;
        }
    }
}
fn record<T: Hash>(t: &T) -> Rec {
    let mut r = Rec { b: [0; 256], n: 0, calls: 0 };
    t.hash(&mut r);
    r
}

fn coherent<T: V>() {
    let (x, y) = (sym(T::N), sym(T::N));
    let (a, b) = (T::new(x), T::new(y));
    let mut want = Ordering::Equal;
    for i in (0..T::N).rev() {
        want = if x[i] < y[i] {
            Ordering::Less
        } else if x[i] > y[i] {
            Ordering::Greater
        } else {
            want
        };
    }
    let eq = want == Ordering::Equal;
    check((a == b) == eq, 1);
    check((a != b) == !eq, 2);
    check(a.cmp(&b) == want, 3);
    check(b.cmp(&a) == want.reverse(), 4);
    check(a.partial_cmp(&b) == Some(want), 5);
    check((a < b) == (want == Ordering::Less), 6);
    check((a <= b) == (want != Ordering::Greater), 7);
    check((a > b) == (want == Ordering::Greater), 8);
    check((a >= b) == (want != Ordering::Less), 9);
    let mut o = [0u8; 128];
    a.max(b).get(&mut o[..T::N]);
    for i in 0..T::N {
        check(o[i] == if want == Ordering::Greater { x[i] } else { y[i] }, 10);
    }
    a.min(b).get(&mut o[..T::N]);
    for i in 0..T::N {
        check(o[i] == if want == Ordering::Greater { y[i] } else { x[i] }, 11);
    }
    #[allow(clippy::clone_on_copy)]
    let c = a.clone();
    check(c == a, 12);
    c.get(&mut o[..T::N]);
    check_eq(&o[..T::N], x, 13);
    let (ra, rb) = (record(&a), record(&b));
    check(ra.n <= 256 && ra.n == rb.n && ra.calls == rb.calls, 14);
    let mut same = true;
    for i in 0..ra.n {
        same &= ra.b[i] == rb.b[i];
    }
    check(same == eq, 15);
    if let Some(d) = <T as V>::default() {
        d.get(&mut o[..T::N]);
        check_eq(&o[..T::N], &[0u8; 128][..T::N], 16);
    }
}

// ------------------------------------------------------------------------------------------------

/// arg 0: length
#[export_name = "h_fixed"]
pub extern "C" fn fixed() {
    let n = arg(0);
    let (a, b) = (sparse(n), sparse(n));
    let mut same = true;
    for i in 0..n {
        same &= a[i] == b[i];
    }
    check(chf::cmp::fixed_time_eq(a, b) == same, 1);
    check(chf::cmp::fixed_time_eq(b, a) == same, 2);
    check(chf::cmp::fixed_time_eq(a, a), 3);
}

/// Slices of different lengths are refused. arg 0, 1: lengths
#[export_name = "h_fixed_len"]
pub extern "C" fn fixed_len() {
    let (a, b) = (sparse(arg(0)), sparse(arg(1)));
    expect_panic(true);
    let r = chf::cmp::fixed_time_eq(a, b);
    check(!r, 1);
    check(r, 2);
}

/// Branches and addresses do not depend on the contents. arg 0: length
#[export_name = "h_ct"]
pub extern "C" fn fixed_ct() {
    let n = arg(0);
    let (a, b) = (sparse(n), sparse(n));
    ct(true);
    let r = chf::cmp::fixed_time_eq(a, b);
    ct(false);
    out(&[r as u8]);
}

// ------------------------------------------------------------------------------------------------

#[cfg(feature = "serde")]
mod ser {
    use chf::serde::{de, ser, Deserialize, Serialize};

    use super::*;

    #[derive(Debug)]
    pub struct E;
    impl Display for E {
        fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
    }
    impl std::error::Error for E {}
    impl ser::Error for E {
        fn custom<T: Display>(_: T) -> E { E }
    }
    impl de::Error for E {
        fn custom<T: Display>(_: T) -> E { E }
    }

    /// Keeps what is serialized, and as what.
    pub struct S {
        pub human: bool,
        pub w: W,
        /// 1 text, 2 bytes
        pub kind: u8,
    }
    macro_rules! no {
        ($($f:ident($($t:ty),*) $r:ty;)*) => {
            $( fn $f(self, $(_: $t),*) -> Result<$r, E> { Err(E) } )*
        };
    }
    type No = ser::Impossible<(), E>;
    impl ser::Serializer for &mut S {
        type Ok = ();
        type Error = E;
        type SerializeSeq = No;
        type SerializeTuple = No;
        type SerializeTupleStruct = No;
        type SerializeTupleVariant = No;
        type SerializeMap = No;
        type SerializeStruct = No;
        type SerializeStructVariant = No;
        fn is_human_readable(&self) -> bool { self.human }
        fn serialize_str(self, s: &str) -> Result<(), E> {
            self.kind = 1;
            self.w.write_str(s).map_err(|_| E)
        }
        fn collect_str<T: Display + ?Sized>(self, t: &T) -> Result<(), E> {
            self.kind = 1;
            write!(self.w, "{}", t).map_err(|_| E)
        }
        fn serialize_bytes(self, b: &[u8]) -> Result<(), E> {
            self.kind = 2;
            self.w.write_str(unsafe { core::str::from_utf8_unchecked(b) }).map_err(|_| E)
        }
        no! {
            serialize_bool(bool) ();
            serialize_i8(i8) ();
            serialize_i16(i16) ();
            serialize_i32(i32) ();
            serialize_i64(i64) ();
            serialize_u8(u8) ();
            serialize_u16(u16) ();
            serialize_u32(u32) ();
            serialize_u64(u64) ();
            serialize_f32(f32) ();
            serialize_f64(f64) ();
            serialize_char(char) ();
            serialize_none() ();
            serialize_unit() ();
            serialize_unit_struct(&'static str) ();
            serialize_unit_variant(&'static str, u32, &'static str) ();
            serialize_seq(Option<usize>) No;
            serialize_tuple(usize) No;
            serialize_tuple_struct(&'static str, usize) No;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) No;
            serialize_map(Option<usize>) No;
            serialize_struct(&'static str, usize) No;
            serialize_struct_variant(&'static str, u32, &'static str, usize) No;
        }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), E> { Err(E) }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(
            self,
            _: &'static str,
            _: &T,
        ) -> Result<(), E> {
            Err(E)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<(), E> {
            Err(E)
        }
    }

    /// Hands out one value: text or bytes, borrowed from the input or not.
    pub struct D {
        pub human: bool,
        pub text: bool,
        pub mode: usize,
        pub b: &'static [u8],
    }
    impl<'de> de::Deserializer<'de> for D {
        type Error = E;
        fn is_human_readable(&self) -> bool { self.human }
        fn deserialize_any<X: de::Visitor<'de>>(self, v: X) -> Result<X::Value, E> {
            if self.text {
                let s = unsafe { core::str::from_utf8_unchecked(self.b) };
                match self.mode {
                    0 => v.visit_str(s),
                    1 => v.visit_borrowed_str(s),
                    _ => v.visit_string(s.into()),
                }
            } else {
                match self.mode {
                    0 => v.visit_bytes(self.b),
                    1 => v.visit_borrowed_bytes(self.b),
                    _ => v.visit_byte_buf(self.b.into()),
                }
            }
        }
        chf::serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
            option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum
            identifier ignored_any
        }
    }

    /// arg 0: human readable?
    pub fn serial<T: V + Serialize + for<'a> Deserialize<'a>>() {
        let human = arg(0) == 1;
        let b = sym(T::N);
        let v = T::new(b);
        let mut s = S { human, w: W::new(), kind: 0 };
        check(v.serialize(&mut s).is_ok(), 1);
        out(s.w.get());
        if human {
            let mut want = [0u8; 256];
            hex_of(b, false, &mut want[..2 * T::N]);
            check(s.kind == 1, 2);
            check_eq(s.w.get(), &want[..2 * T::N], 3);
        } else {
            check(s.kind == 2, 4);
            check_eq(s.w.get(), b, 5);
        }
        let got = buf(s.w.get().len());
        got.copy_from_slice(s.w.get());
        match T::deserialize(D { human, text: human, mode: arg(1), b: got }) {
            Ok(p) => {
                let mut o = [0u8; 128];
                p.get(&mut o[..T::N]);
                check_eq(&o[..T::N], b, 6);
            }
            Err(_) => check(false, 7),
        }
    }

    /// Text of arbitrary content. arg 0: length, 1: kind, 2: position, 3: how it is handed over
    /// (0..=2 as a string, 3..=5 as bytes)
    pub fn detext<T: V + for<'a> Deserialize<'a>>() {
        let s = string(arg(0), arg(1), arg(2));
        let mut want = [0u8; 128];
        let ok = denotes(s, T::N, &mut want);
        let m = arg(3);
        match T::deserialize(D { human: true, text: m < 3, mode: m % 3, b: s }) {
            Ok(v) => {
                reach(1);
                check(ok, 1);
                let mut o = [0u8; 128];
                v.get(&mut o[..T::N]);
                check_eq(&o[..T::N], &want[..T::N], 2);
            }
            Err(_) => {
                reach(2);
                check(!ok, 3);
            }
        }
    }

    /// Bytes that are no valid string. arg 0: length, 1: position of the offending byte
    pub fn debad<T: V + for<'a> Deserialize<'a>>() {
        let s = sym(arg(0));
        for b in s.iter_mut() {
            *b &= 0x7f;
        }
        s[arg(1)] |= 0x80;
        // a lone byte of a longer character, or the start of one that is not continued
        check(T::deserialize(D { human: true, text: false, mode: 0, b: s }).is_err(), 1);
    }

    /// Bytes of arbitrary content. arg 0: length, 1: mode
    pub fn debytes<T: V + for<'a> Deserialize<'a>>() {
        let b = sym(arg(0));
        match T::deserialize(D { human: false, text: false, mode: arg(1), b }) {
            Ok(v) => {
                check(b.len() == T::N, 1);
                let mut o = [0u8; 128];
                v.get(&mut o[..T::N]);
                check_eq(&o[..T::N], b, 2);
            }
            Err(_) => check(b.len() != T::N, 3),
        }
    }
}

// ------------------------------------------------------------------------------------------------

#[cfg(feature = "schemars")]
mod sch {
    use schemars::schema::{InstanceType, SingleOrVec};
    use schemars::JsonSchema;

    use super::*;

    /// One element of a pattern: a character set and how often.
    struct El {
        set: [bool; 128],
        min: usize,
        max: usize,
    }

    /// Patterns made of optional anchors and (escaped) characters or bracketed sets, each with an
    /// optional quantifier.
    fn read(p: &[u8]) -> Option<(bool, bool, Vec<El>)> {
        let mut i = 0;
        let (mut head, mut tail) = (false, false);
        let mut v: Vec<El> = Vec::new();
        if p.first() == Some(&b'^') {
            head = true;
            i = 1;
        }
        while i < p.len() {
            let mut set = [false; 128];
            match p[i] {
                b'$' if i + 1 == p.len() => {
                    tail = true;
                    break;
                }
                b'[' => {
                    i += 1;
                    let neg = p.get(i) == Some(&b'^');
                    if neg {
                        i += 1;
                    }
                    while *p.get(i)? != b']' {
                        if p[i] == b'\\' || p[i] >= 128 {
                            return None;
                        }
                        if p.get(i + 1) == Some(&b'-') && *p.get(i + 2)? != b']' {
                            let (a, b) = (p[i], p[i + 2]);
                            if a > b || b >= 128 {
                                return None;
                            }
                            for c in a..=b {
                                set[c as usize] = true;
                            }
                            i += 3;
                        } else {
                            set[p[i] as usize] = true;
                            i += 1;
                        }
                    }
                    if neg {
                        for c in set.iter_mut() {
                            *c = !*c;
                        }
                    }
                    i += 1;
                }
                b'\\' => {
                    match *p.get(i + 1)? {
                        b'd' => {
                            for c in b'0'..=b'9' {
                                set[c as usize] = true;
                            }
                        }
                        _ => return None,
                    }
                    i += 2;
                }
                b'(' | b')' | b'|' | b'.' | b'{' | b'}' | b'*' | b'+' | b'?' | b'$' | b'^' => {
                    return None
                }
                c if c < 128 => {
                    set[c as usize] = true;
                    i += 1;
                }
                _ => return None,
            }
            let (mut min, mut max) = (1, 1);
            match p.get(i) {
                Some(b'+') => {
                    max = 1000;
                    i += 1;
                }
                Some(b'*') => {
                    min = 0;
                    max = 1000;
                    i += 1;
                }
                Some(b'?') => {
                    min = 0;
                    i += 1;
                }
                Some(b'{') => {
                    i += 1;
                    let num = |i: &mut usize| {
                        let mut n = 0;
                        while p.get(*i).map_or(false, |c| c.is_ascii_digit()) {
                            n = n * 10 + (p[*i] - b'0') as usize;
                            *i += 1;
                        }
                        n
                    };
                    min = num(&mut i);
                    max = min;
                    if *p.get(i)? == b',' {
                        i += 1;
                        max = if *p.get(i)? == b'}' { 1000 } else { num(&mut i) };
                    }
                    if *p.get(i)? != b'}' {
                        return None;
                    }
                    i += 1;
                }
                _ => {}
            }
            v.push(El { set, min, max });
        }
        Some((head, tail, v))
    }

    /// Does the pattern match somewhere in `s`?
    fn matches(pat: &(bool, bool, Vec<El>), s: &[u8]) -> bool {
        let n = s.len();
        // at[i]: some match of the elements so far ends at i
        let mut at = vec![!pat.0; n + 1];
        at[0] = true;
        for e in &pat.2 {
            let mut inset = vec![false; n];
            for i in 0..n {
                inset[i] = member(&e.set, s[i]);
            }
            let max = e.max.min(n);
            let mut next = vec![false; n + 1];
            let mut cur = at;
            // unbounded repetition: one pass is enough once the minimum is used up
            for k in 0..=max {
                if k >= e.min {
                    for i in 0..=n {
                        next[i] |= cur[i];
                    }
                    if e.max >= 1000 {
                        for i in 0..n {
                            let c = next[i] & inset[i];
                            next[i + 1] |= c;
                        }
                        break;
                    }
                }
                let mut step = vec![false; n + 1];
                for i in 0..n {
                    step[i + 1] = cur[i] & inset[i];
                }
                cur = step;
            }
            at = next;
        }
        if pat.1 {
            at[n]
        } else {
            let mut any = false;
            for b in at {
                any |= b;
            }
            any
        }
    }

    fn member(set: &[bool; 128], c: u8) -> bool {
        // by ranges, so that an arbitrary character stays one condition
        let mut r = false;
        let mut i = 0;
        while i < 128 {
            if set[i] {
                let mut j = i;
                while j + 1 < 128 && set[j + 1] {
                    j += 1;
                }
                r |= (c >= i as u8) & (c <= j as u8);
                i = j;
            }
            i += 1;
        }
        r
    }

    pub fn schema<T: V + JsonSchema>() {
        let mut gen = schemars::gen::SchemaGenerator::default();
        let s = T::json_schema(&mut gen).into_object();
        let b = sym(T::N);
        let v = T::new(b);
        let mut w = W::new();
        check(write!(w, "{}", v).is_ok(), 1);
        let text = w.get();
        match &s.instance_type {
            Some(SingleOrVec::Single(t)) => check(**t == InstanceType::String, 2),
            _ => check(false, 3),
        }
        check(s.enum_values.is_none() && s.const_value.is_none() && s.subschemas.is_none(), 4);
        match &s.string {
            Some(x) => {
                check(x.min_length == Some(text.len() as u32), 5);
                check(x.max_length == Some(text.len() as u32), 6);
                if let Some(p) = &x.pattern {
                    match read(p.as_bytes()) {
                        Some(pat) => check(matches(&pat, text), 7),
                        None => unsupported(),
                    }
                }
            }
            None => check(false, 8),
        }
    }
}

// ------------------------------------------------------------------------------------------------

macro_rules! entries {
    ($($f:ident),*) => {
        $(
            pub mod $f {
                use super::*;
                #[allow(unused_imports)]
                use super::$f;
                entries!(@ $f: sha1 sha1::Hash, sha256 sha256::Hash, sha384 sha384::Hash,
                    sha512 sha512::Hash, sha512_256 sha512_256::Hash, ripemd160 ripemd160::Hash,
                    siphash24 siphash24::Hash, tagged sha256t::Hash<Tg>, hmac8 hmac::Hash<8>,
                    hmac20 hmac::Hash<20>, hmac32 hmac::Hash<32>, hmac48 hmac::Hash<48>,
                    hmac64 hmac::Hash<64>, hmac1 hmac::Hash<1>, hmac128 hmac::Hash<128>);
            }
        )*
    };
    (@ $f:ident: $($name:ident $t:ty),* $(,)?) => {
        $(
            #[export_name = concat!("h_", stringify!($f), "_", stringify!($name))]
            pub extern "C" fn $name() { $f::<$t>() }
        )*
    };
}
macro_rules! mid_entries {
    ($($f:ident),*) => {
        pub mod midstates {
            use super::*;
            $(
                #[export_name = concat!("h_", stringify!($f), "_midstate")]
                pub extern "C" fn $f() { super::$f::<sha256::Midstate>() }
            )*
        }
    };
}
entries!(text, parse, slice, views, coherent);
mid_entries!(text, parse, slice, views, coherent);

#[cfg(feature = "serde")]
pub mod serde_entries {
    use super::ser::{debad, debytes, detext, serial};
    use super::*;
    entries!(serial, detext, debad, debytes);
    mid_entries!(serial, detext, debad, debytes);
}

#[cfg(feature = "schemars")]
pub mod schema_entries {
    use super::sch::schema;
    use super::*;
    entries!(schema);
}
