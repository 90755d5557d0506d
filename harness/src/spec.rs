//! Reference specifications, transcribed from the published standards (FIPS 180-4, RIPEMD-160,
//! SipHash-2-4, RFC 2104).  Written for clarity, with no shared code with the crate under check.

use crate::consts::*;

/// An iterated hash as its standard defines it.
pub trait Spec {
    /// block size of the iteration, in bytes
    const BLOCK: usize;
    /// digest length in bytes
    const OUT: usize;
    /// length of the serialised chaining value
    const MID: usize;
    type S: Clone;
    fn iv() -> Self::S;
    fn from_mid(mid: &[u8]) -> Self::S;
    fn mid(s: &Self::S, out: &mut [u8]);
    fn block(s: &mut Self::S, b: &[u8]);
    /// `tail` is what is left after whole blocks, `total` the byte length of the whole message
    fn finish(s: Self::S, tail: &[u8], total: u64, out: &mut [u8]);
    /// bytes already hashed in the initial value
    fn before() -> u64 { 0 }
}

/// Digest of a message whose first `before` bytes led to `s` and which goes on with `data`.
pub fn digest_from<X: Spec>(mut s: X::S, before: u64, data: &[u8], out: &mut [u8]) {
    let mut i = 0;
    while data.len() - i >= X::BLOCK {
        X::block(&mut s, &data[i..i + X::BLOCK]);
        i += X::BLOCK;
    }
    X::finish(s, &data[i..], before.wrapping_add(data.len() as u64), out);
}

pub fn digest<X: Spec>(data: &[u8], out: &mut [u8]) { digest_from::<X>(X::iv(), X::before(), data, out) }

/// Merkle-Damgard padding: 0x80, zeros, then the bit length in `lenlen` bytes.
fn md_finish<X: Spec>(mut s: X::S, tail: &[u8], total: u64, lenlen: usize, be: bool) -> X::S {
    let mut buf = [0u8; 256];
    buf[..tail.len()].copy_from_slice(tail);
    buf[tail.len()] = 0x80;
    let n = if tail.len() + 1 + lenlen <= X::BLOCK { X::BLOCK } else { 2 * X::BLOCK };
    let bits = total << 3;
    if be {
        buf[n - 8..n].copy_from_slice(&bits.to_be_bytes());
    } else {
        buf[n - 8..n].copy_from_slice(&bits.to_le_bytes());
    }
    X::block(&mut s, &buf[..X::BLOCK]);
    if n > X::BLOCK {
        X::block(&mut s, &buf[X::BLOCK..2 * X::BLOCK]);
    }
    s
}

fn be32(b: &[u8]) -> u32 {
    (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32
}
fn le32(b: &[u8]) -> u32 {
    (b[3] as u32) << 24 | (b[2] as u32) << 16 | (b[1] as u32) << 8 | b[0] as u32
}
fn be64(b: &[u8]) -> u64 { (be32(b) as u64) << 32 | be32(&b[4..]) as u64 }
pub fn le64(b: &[u8]) -> u64 { (le32(&b[4..]) as u64) << 32 | le32(b) as u64 }

// ------------------------------------------------------------------ SHA-256 (FIPS 180-4, 6.2)

pub struct Sha256;
impl Spec for Sha256 {
    const BLOCK: usize = 64;
    const OUT: usize = 32;
    const MID: usize = 32;
    type S = [u32; 8];
    fn iv() -> [u32; 8] { H256 }
    fn from_mid(m: &[u8]) -> [u32; 8] {
        let mut h = [0; 8];
        for i in 0..8 {
            h[i] = be32(&m[4 * i..]);
        }
        h
    }
    fn mid(s: &[u32; 8], out: &mut [u8]) {
        for i in 0..8 {
            out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_be_bytes());
        }
    }
    fn block(s: &mut [u32; 8], b: &[u8]) {
        let mut w = [0u32; 64];
        for t in 0..16 {
            w[t] = be32(&b[4 * t..]);
        }
        for t in 16..64 {
            let x = w[t - 2];
            let s1 = x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
            let y = w[t - 15];
            let s0 = y.rotate_right(7) ^ y.rotate_right(18) ^ (y >> 3);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *s;
        for t in 0..64 {
            let big1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let ch = (e & f) ^ (!e & g);
            let t1 = h
                .wrapping_add(big1)
                .wrapping_add(ch)
                .wrapping_add(K256[t])
                .wrapping_add(w[t]);
            let big0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let maj = (a & b) ^ (a & c) ^ (b & c);
            let t2 = big0.wrapping_add(maj);
            h = g;
            g = f;
            f = e;
            e = d.wrapping_add(t1);
            d = c;
            c = b;
            b = a;
            a = t1.wrapping_add(t2);
        }
        let v = [a, b, c, d, e, f, g, h];
        for i in 0..8 {
            s[i] = s[i].wrapping_add(v[i]);
        }
    }
    fn finish(s: [u32; 8], tail: &[u8], total: u64, out: &mut [u8]) {
        let s = md_finish::<Self>(s, tail, total, 8, true);
        Self::mid(&s, out);
    }
}

// ------------------------------------------------------------------ SHA-1 (FIPS 180-4, 6.1)

pub struct Sha1;
impl Spec for Sha1 {
    const BLOCK: usize = 64;
    const OUT: usize = 20;
    const MID: usize = 20;
    type S = [u32; 5];
    fn iv() -> [u32; 5] { [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0] }
    fn from_mid(m: &[u8]) -> [u32; 5] {
        let mut h = [0; 5];
        for i in 0..5 {
            h[i] = be32(&m[4 * i..]);
        }
        h
    }
    fn mid(s: &[u32; 5], out: &mut [u8]) {
        for i in 0..5 {
            out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_be_bytes());
        }
    }
    fn block(s: &mut [u32; 5], blk: &[u8]) {
        let mut w = [0u32; 80];
        for t in 0..16 {
            w[t] = be32(&blk[4 * t..]);
        }
        for t in 16..80 {
            w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = *s;
        for t in 0..80 {
            let (f, k) = if t < 20 {
                ((b & c) ^ (!b & d), 0x5a827999u32)
            } else if t < 40 {
                (b ^ c ^ d, 0x6ed9eba1)
            } else if t < 60 {
                ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc)
            } else {
                (b ^ c ^ d, 0xca62c1d6)
            };
            let tmp = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(w[t]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = tmp;
        }
        let v = [a, b, c, d, e];
        for i in 0..5 {
            s[i] = s[i].wrapping_add(v[i]);
        }
    }
    fn finish(s: [u32; 5], tail: &[u8], total: u64, out: &mut [u8]) {
        let s = md_finish::<Self>(s, tail, total, 8, true);
        Self::mid(&s, out);
    }
}

// ------------------------------------------------------------------ RIPEMD-160

pub struct Ripemd160;

#[rustfmt::skip]
const RL: [u8; 80] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
    7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
    3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
    1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
    4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
];
#[rustfmt::skip]
const RR: [u8; 80] = [
    5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
    6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
    15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
    8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
    12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
];
#[rustfmt::skip]
const SL: [u32; 80] = [
    11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
    7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
    11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
    11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
    9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
];
#[rustfmt::skip]
const SR: [u32; 80] = [
    8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
    9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
    9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
    15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
    8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
];
const KL: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
const KR: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];

fn rmd_f(j: usize, x: u32, y: u32, z: u32) -> u32 {
    match j / 16 {
        0 => x ^ y ^ z,
        1 => (x & y) | (!x & z),
        2 => (x | !y) ^ z,
        3 => (x & z) | (y & !z),
        _ => x ^ (y | !z),
    }
}

impl Spec for Ripemd160 {
    const BLOCK: usize = 64;
    const OUT: usize = 20;
    const MID: usize = 20;
    type S = [u32; 5];
    fn iv() -> [u32; 5] { Sha1::iv() }
    fn from_mid(m: &[u8]) -> [u32; 5] {
        let mut h = [0; 5];
        for i in 0..5 {
            h[i] = le32(&m[4 * i..]);
        }
        h
    }
    fn mid(s: &[u32; 5], out: &mut [u8]) {
        for i in 0..5 {
            out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
        }
    }
    fn block(s: &mut [u32; 5], blk: &[u8]) {
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = le32(&blk[4 * i..]);
        }
        let [mut a, mut b, mut c, mut d, mut e] = *s;
        let [mut aa, mut bb, mut cc, mut dd, mut ee] = *s;
        for j in 0..80 {
            let t = a
                .wrapping_add(rmd_f(j, b, c, d))
                .wrapping_add(x[RL[j] as usize])
                .wrapping_add(KL[j / 16])
                .rotate_left(SL[j])
                .wrapping_add(e);
            a = e;
            e = d;
            d = c.rotate_left(10);
            c = b;
            b = t;
            let t = aa
                .wrapping_add(rmd_f(79 - j, bb, cc, dd))
                .wrapping_add(x[RR[j] as usize])
                .wrapping_add(KR[j / 16])
                .rotate_left(SR[j])
                .wrapping_add(ee);
            aa = ee;
            ee = dd;
            dd = cc.rotate_left(10);
            cc = bb;
            bb = t;
        }
        let t = s[1].wrapping_add(c).wrapping_add(dd);
        s[1] = s[2].wrapping_add(d).wrapping_add(ee);
        s[2] = s[3].wrapping_add(e).wrapping_add(aa);
        s[3] = s[4].wrapping_add(a).wrapping_add(bb);
        s[4] = s[0].wrapping_add(b).wrapping_add(cc);
        s[0] = t;
    }
    fn finish(s: [u32; 5], tail: &[u8], total: u64, out: &mut [u8]) {
        let s = md_finish::<Self>(s, tail, total, 8, false);
        Self::mid(&s, out);
    }
}

// ------------------------------------------------------------------ SHA-512 family (6.4 - 6.7)

fn sha512_block(s: &mut [u64; 8], b: &[u8]) {
    let mut w = [0u64; 80];
    for t in 0..16 {
        w[t] = be64(&b[8 * t..]);
    }
    for t in 16..80 {
        let x = w[t - 2];
        let s1 = x.rotate_right(19) ^ x.rotate_right(61) ^ (x >> 6);
        let y = w[t - 15];
        let s0 = y.rotate_right(1) ^ y.rotate_right(8) ^ (y >> 7);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
    }
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *s;
    for t in 0..80 {
        let big1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = (e & f) ^ (!e & g);
        let t1 =
            h.wrapping_add(big1).wrapping_add(ch).wrapping_add(K512[t]).wrapping_add(w[t]);
        let big0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = big0.wrapping_add(maj);
        h = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = b;
        b = a;
        a = t1.wrapping_add(t2);
    }
    let v = [a, b, c, d, e, f, g, h];
    for i in 0..8 {
        s[i] = s[i].wrapping_add(v[i]);
    }
}

macro_rules! sha512_spec {
    ($name:ident, $iv:expr, $out:literal) => {
        pub struct $name;
        impl Spec for $name {
            const BLOCK: usize = 128;
            const OUT: usize = $out;
            const MID: usize = 64;
            type S = [u64; 8];
            fn iv() -> [u64; 8] { $iv }
            fn from_mid(m: &[u8]) -> [u64; 8] {
                let mut h = [0; 8];
                for i in 0..8 {
                    h[i] = be64(&m[8 * i..]);
                }
                h
            }
            fn mid(s: &[u64; 8], out: &mut [u8]) {
                for i in 0..8 {
                    out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_be_bytes());
                }
            }
            fn block(s: &mut [u64; 8], b: &[u8]) { sha512_block(s, b) }
            fn finish(s: [u64; 8], tail: &[u8], total: u64, out: &mut [u8]) {
                let s = md_finish::<Self>(s, tail, total, 16, true);
                let mut full = [0u8; 64];
                Self::mid(&s, &mut full);
                out[..$out].copy_from_slice(&full[..$out]);
            }
        }
    };
}
sha512_spec!(Sha512, H512, 64);
sha512_spec!(Sha384, H384, 48);
sha512_spec!(Sha512_256, H512_256, 32);

// ------------------------------------------------------------------ SipHash-2-4

pub struct SipHash;

fn sip_round(v: &mut [u64; 4]) {
    v[0] = v[0].wrapping_add(v[1]);
    v[2] = v[2].wrapping_add(v[3]);
    v[1] = v[1].rotate_left(13);
    v[3] = v[3].rotate_left(16);
    v[1] ^= v[0];
    v[3] ^= v[2];
    v[0] = v[0].rotate_left(32);
    v[2] = v[2].wrapping_add(v[1]);
    v[0] = v[0].wrapping_add(v[3]);
    v[1] = v[1].rotate_left(17);
    v[3] = v[3].rotate_left(21);
    v[1] ^= v[2];
    v[3] ^= v[0];
    v[2] = v[2].rotate_left(32);
}

pub fn sip_init(k0: u64, k1: u64) -> [u64; 4] {
    [
        k0 ^ 0x736f6d6570736575,
        k1 ^ 0x646f72616e646f6d,
        k0 ^ 0x6c7967656e657261,
        k1 ^ 0x7465646279746573,
    ]
}

impl Spec for SipHash {
    const BLOCK: usize = 8;
    const OUT: usize = 8;
    const MID: usize = 32;
    type S = [u64; 4];
    fn iv() -> [u64; 4] { sip_init(0, 0) }
    fn from_mid(m: &[u8]) -> [u64; 4] {
        [le64(m), le64(&m[8..]), le64(&m[16..]), le64(&m[24..])]
    }
    fn mid(s: &[u64; 4], out: &mut [u8]) {
        for i in 0..4 {
            out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes());
        }
    }
    fn block(s: &mut [u64; 4], b: &[u8]) {
        let m = le64(b);
        s[3] ^= m;
        sip_round(s);
        sip_round(s);
        s[0] ^= m;
    }
    fn finish(mut s: [u64; 4], tail: &[u8], total: u64, out: &mut [u8]) {
        let mut b = [0u8; 8];
        b[..tail.len()].copy_from_slice(tail);
        b[7] = total as u8;
        Self::block(&mut s, &b);
        s[2] ^= 0xff;
        for _ in 0..4 {
            sip_round(&mut s);
        }
        out[..8].copy_from_slice(&(s[0] ^ s[1] ^ s[2] ^ s[3]).to_le_bytes());
    }
}

// ------------------------------------------------------------------ HMAC (RFC 2104)

/// HMAC over the hash `X` used with HMAC block size `block`.
pub fn hmac<X: Spec>(block: usize, key: &[u8], msg: &[u8], out: &mut [u8]) {
    let mut k = [0u8; 128];
    if key.len() > block {
        digest::<X>(key, &mut k);
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner = [0u8; 64];
    keyed::<X>(&k[..block], 0x36, msg, &mut inner);
    keyed::<X>(&k[..block], 0x5c, &inner[..X::OUT], out);
}

/// H((k xor pad) || msg)
fn keyed<X: Spec>(k: &[u8], pad: u8, msg: &[u8], out: &mut [u8]) {
    let mut b = [0u8; 128];
    for i in 0..k.len() {
        b[i] = k[i] ^ pad;
    }
    let mut s = X::iv();
    let mut i = 0;
    while i < k.len() {
        X::block(&mut s, &b[i..i + X::BLOCK]);
        i += X::BLOCK;
    }
    digest_from::<X>(s, X::before() + k.len() as u64, msg, out);
}
