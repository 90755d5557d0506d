//! Which harness runs decide which property, and within which bounds.

use crate::exec::Feat;

#[derive(Clone, Debug)]
pub struct Case {
    pub cfg: &'static str,
    pub entry: String,
    pub args: Vec<u64>,
    pub feat: Feat,
    /// only memory safety, panics and undefined values are judged
    pub safety: bool,
    /// have the solver certify every simplification
    pub certify: bool,
    /// marks that some input must reach
    pub reach: Vec<u32>,
    /// rough cost, for scheduling
    pub cost: u64,
    /// its sizes come from numbers in the code
    pub extra: bool,
}

/// (name, cargo profile, harness features)
pub const CONFIGS: &[(&str, &str, &str)] = &[
    // run-time checks on: overflow and debug assertions
    ("std", "release", "std,serde,schemars"),
    ("opt", "opt", "std,serde,schemars"),
    ("small", "release", "std,small-hash"),
    ("smallopt", "opt", "small-hash"),
    ("nostd", "release", "io"),
];

/// (name, block, length field, digest, chaining value)
const BLK: &[(&str, u64, u64)] = &[
    ("sha1", 64, 8),
    ("sha256", 64, 8),
    ("sha384", 128, 16),
    ("sha512", 128, 16),
    ("sha512_256", 128, 16),
    ("ripemd160", 64, 8),
];
/// every engine: (name, bytes per step, is HMAC, block of the HMAC key)
const ANY: &[(&str, u64, bool, u64)] = &[
    ("sha1", 64, false, 64),
    ("sha256", 64, false, 64),
    ("sha384", 128, false, 128),
    ("sha512", 128, false, 128),
    ("sha512_256", 128, false, 128),
    ("ripemd160", 64, false, 64),
    ("siphash24", 8, false, 32),
    ("tagged", 64, false, 64),
    ("hmac_sha1", 64, true, 64),
    ("hmac_sha256", 64, true, 64),
    ("hmac_sha384", 128, true, 128),
    ("hmac_sha512", 128, true, 128),
    ("hmac_sha512_256", 128, true, 128),
    ("hmac_ripemd160", 64, true, 64),
    ("hmac_siphash24", 8, true, 32),
    ("hmac_tagged", 64, true, 64),
];
const WRITERS: &[&str] = &[
    "sha1", "sha256", "sha512", "ripemd160", "siphash24", "tagged", "hmac_sha1", "hmac_sha256",
    "hmac_sha384", "hmac_sha512", "hmac_sha512_256", "hmac_ripemd160", "hmac_siphash24",
    "hmac_tagged",
];
/// value types and their size
const VAL: &[(&str, u64)] = &[
    ("sha1", 20),
    ("sha256", 32),
    ("sha384", 48),
    ("sha512", 64),
    ("sha512_256", 32),
    ("ripemd160", 20),
    ("siphash24", 8),
    ("tagged", 32),
    ("hmac8", 8),
    ("hmac20", 20),
    ("hmac32", 32),
    ("hmac48", 48),
    ("hmac64", 64),
    ("midstate", 32),
];
/// as VAL, with HMAC values of unusual widths
const VAL2: &[(&str, u64)] = &[
    ("sha1", 20),
    ("sha256", 32),
    ("sha384", 48),
    ("sha512", 64),
    ("sha512_256", 32),
    ("ripemd160", 20),
    ("siphash24", 8),
    ("tagged", 32),
    ("hmac1", 1),
    ("hmac8", 8),
    ("hmac20", 20),
    ("hmac32", 32),
    ("hmac48", 48),
    ("hmac64", 64),
    ("hmac128", 128),
    ("midstate", 32),
];

pub struct Plan {
    pub cases: Vec<Case>,
    pub bounds: Vec<String>,
    pub outside: Vec<String>,
    pub mined: Vec<String>,
}

struct B {
    cases: Vec<Case>,
    bounds: Vec<String>,
    outside: Vec<String>,
    cfg: &'static str,
    feat: Feat,
    safety: bool,
    deep: bool,
}

fn range(a: u64, b: u64) -> Vec<u64> { (a..=b).collect() }
fn cat(v: &[&[u64]]) -> Vec<u64> {
    let mut o: Vec<u64> = v.iter().flat_map(|x| x.iter().copied()).collect();
    o.sort();
    o.dedup();
    o
}

impl B {
    fn add(&mut self, entry: impl Into<String>, args: &[u64], cost: u64) -> &mut Case {
        let c = Case {
            cfg: self.cfg,
            entry: entry.into(),
            args: args.to_vec(),
            feat: self.feat,
            safety: self.safety,
            certify: !self.safety,
            reach: vec![],
            cost,
            extra: false,
        };
        self.cases.push(c);
        self.cases.last_mut().unwrap()
    }
    fn bound(&mut self, s: impl Into<String>) { self.bounds.push(s.into()) }
    fn out(&mut self, s: impl Into<String>) { self.outside.push(s.into()) }

    /// A block hash against its standard.
    fn digest(&mut self, alg: &str, feats: &[Feat], full: bool) {
        let &(_, b, p) = BLK.iter().find(|x| x.0 == alg).unwrap();
        let lens = if self.deep {
            if full { range(0, 4 * b + 8) } else { range(0, 2 * b + 8) }
        } else if full {
            cat(&[&range(0, b + 6), &range(2 * b - p - 3, 2 * b + 2), &range(3 * b - p - 2, 3 * b - p + 1), &[3 * b, 4 * b]])
        } else {
            cat(&[&[0, 1, 3], &range(b - p - 2, b + 2), &range(2 * b - p - 1, 2 * b - p + 1), &[2 * b]])
        };
        let pres = if full || self.deep { range(0, b - 1) } else { cat(&[&[0, 1, 7], &range(b - p - 2, b - 1)]) };
        for f in feats {
            self.feat = *f;
            for n in &lens {
                self.add(format!("h_oneshot_{}", alg), &[*n], n + 64);
            }
            for q in &pres {
                let mut ns = vec![1, b - q, 2 * b - q + 3];
                if self.deep {
                    ns = cat(&[&ns, &[0, 2, p, b, b + 1, 2 * b, 3 * b + 5], &range((b - p).saturating_sub(*q), b - p + 2 - (*q).min(b - p))]);
                }
                for n in ns {
                    self.add(format!("h_resume_{}", alg), &[*q, n], q + n + 64);
                }
            }
            let longs: &[u64] = if self.deep {
                &[1000, 1501, 2047, 4099, 8192, 16384, 32768, 65535, 65536, 65537, 70000, 131072 + 5]
            } else {
                &[1000, 4096, 8201, 65600]
            };
            for n in longs {
                self.add(format!("h_long_{}", alg), &[*n], n / 4);
            }
        }
        self.feat = Feat::On;
        self.bound(format!(
            "{}: one-shot over lengths {} with arbitrary contents; from an arbitrary chaining value and arbitrary length below 2^60, fill levels {} times 3{} continuations of up to {} bytes; messages of 1000 bytes with arbitrary contents and up to {} bytes with the last 9 arbitrary",
            alg,
            runs(&lens),
            runs(&pres),
            if self.deep { " to 12" } else { "" },
            if self.deep { 3 * b + 5 } else { 2 * b + 3 },
            if self.deep { 131077 } else { 65600 },
        ));
    }
}

fn runs(v: &[u64]) -> String {
    let mut o: Vec<String> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
            j += 1;
        }
        o.push(if i == j { v[i].to_string() } else { format!("{}..{}", v[i], v[j]) });
        i = j + 1;
    }
    o.join(",")
}

pub fn plan(id: &str, deep: bool) -> Option<Plan> {
    let mut b = B {
        cases: vec![],
        bounds: vec![],
        outside: vec![],
        cfg: "std",
        feat: Feat::On,
        safety: false,
        deep,
    };
    use Feat::*;
    match id {
        "C01" => {
            b.digest("sha256", &[On, Off], true);
            if deep {
                b.cfg = "opt";
                b.deep = false;
                b.digest("sha256", &[On, Off], true);
            }
            b.out("total lengths of 2^60 bytes and more");
        }
        "C02" => {
            for cfg in ["std", "opt"] {
                b.cfg = cfg;
                b.feat = Sym;
                let ns: Vec<u64> = if deep { cat(&[&range(0, 66), &[119, 120, 128, 200]]) } else { vec![0, 1, 55, 56, 64, 130] };
                for n in ns {
                    b.add("h_dispatch_sha256", &[0, n], n + 64);
                    b.add("h_dispatch_sha256", &[5, n], n + 64);
                }
                for f in [On, Off] {
                    b.feat = f;
                    for n in [0, 64, 65, 192] {
                        b.add("h_resume_sha256", &[0, n], n + 64);
                    }
                }
                if deep {
                    for f in [On, Off] {
                        b.feat = f;
                        for q in 0..64 {
                            b.add("h_resume_sha256", &[q, 128], 200);
                        }
                    }
                }
            }
            b.bound("every value of the 189 CPU feature bits the standard library caches (with implications sse3 from ssse3), every chaining value, 1 to 5 blocks of arbitrary contents, in checked and optimised builds");
            b.out("non-x86 targets; CPUs whose reported features are wrong");
        }
        "C03" => {
            b.digest("sha512", &[On], true);
            b.digest("sha384", &[On], false);
            b.digest("sha512_256", &[On], false);
            if deep {
                b.cfg = "opt";
                b.deep = false;
                for a in ["sha512", "sha384", "sha512_256"] {
                    b.digest(a, &[On], false);
                }
            }
            b.out("total lengths of 2^60 bytes and more");
        }
        "C04" | "C05" => {
            let a = if id == "C04" { "sha1" } else { "ripemd160" };
            b.digest(a, &[On], true);
            if deep {
                b.cfg = "opt";
                b.deep = false;
                b.digest(a, &[On], true);
            }
            b.out("total lengths of 2^60 bytes and more");
        }
        "C06" => {
            for n in if deep { range(0, 300) } else { cat(&[&range(0, 41), &[63, 64, 65, 255, 256, 257]]) } {
                b.add("h_sip", &[n], n + 30);
            }
            for n in if deep { range(0, 64) } else { range(0, 20) } {
                b.add("h_sip_default", &[n], n + 30);
            }
            for q in 0..8 {
                for n in if deep { range(0, 40) } else { cat(&[&range(0, 10), &[16, 17]]) } {
                    b.add("h_resume_siphash24", &[q, n], n + 30);
                }
            }
            for n in if deep { vec![511, 512, 513, 777, 1000] } else { vec![512, 517] } {
                b.add("h_sip", &[n], 8 * n);
            }
            for n in if deep { vec![1501, 4099, 8201, 32768, 65536, 65600, 1 << 17] } else { vec![4099, 65600] } {
                b.add("h_sip_default", &[n], n);
            }
            if deep {
                b.cfg = "opt";
                for n in 0..70 {
                    b.add("h_sip", &[n], n + 30);
                    b.add("h_sip_default", &[n], n + 30);
                }
            }
            b.bound(format!("every key, every message content of {} bytes, every reachable state and length below 2^60 with fill 0..7; without a key, messages of 4099 and 65600 bytes (thorough: up to 2^17) with the last 9 arbitrary", if deep { "0..300,511..513,777,1000" } else { "0..41,63..65,255..257,512,517" }));
            b.out("longer messages except through the arbitrary-state continuation");
        }
        "C07" => {
            for &(a, s, mac, kb) in ANY {
                let short = mac;
                // pieces around the places where the buffer fills up
                let mut sets: Vec<Vec<u64>> = vec![
                    vec![1, s - 1, 1],
                    vec![s - 1, 1, s],
                    vec![s - 1, 2, 0],
                    vec![s, 0, 1],
                    vec![0, s + 1, s - 1],
                    vec![3, s, s],
                    vec![s / 2, s / 2, 5],
                    vec![2 * s - 1, 1, 1],
                    vec![5, 2 * s, 0],
                    vec![1, 1, 1, 1],
                ];
                if short {
                    sets.truncate(7);
                }
                if deep {
                    for x in 0..s {
                        for y in [0, 1, s - x, s, 2 * s + 1] {
                            if short && x % 5 != 0 {
                                continue;
                            }
                            sets.push(vec![x, y, 1]);
                        }
                    }
                    for x in [1, s / 2, s - 1] {
                        for y in 0..=s + 1 {
                            if !short {
                                sets.push(vec![x, y, 3]);
                            }
                        }
                    }
                } else if !short {
                    for x in [1, 7, s - 1] {
                        for y in [0, 1, s - x, s - x + 1, s, 2 * s - x] {
                            sets.push(vec![x, y, 1]);
                        }
                    }
                }
                // a long piece after a short one; many short pieces
                let long = vec![1, 8 * s + 3, 1];
                let mut many = vec![3u64; (s / 3 + 2) as usize];
                many[1] = 0;
                sets.push(many);
                if deep || !mac {
                    sets.push(long);
                    sets.push(vec![1; s as usize + 3]);
                    sets.push(vec![2, 256, 3]);
                }
                for st in [0, 1] {
                    for v in &sets {
                        let t: u64 = v.iter().sum();
                        let mut args = vec![st, if st == 0 { [3, kb + 1][(t % 2) as usize] } else { 0 }, 1, v.len() as u64];
                        args.extend(v);
                        b.add(format!("h_stream_{}", a), &args, 4 * t + 200);
                    }
                }
                for v in sets.iter().take(if deep { 60 } else { 6 }) {
                    let t: u64 = v.iter().sum();
                    let mut args = vec![v.len() as u64];
                    args.extend(v);
                    b.add(format!("h_chunks_{}", a), &args, 3 * t + 200);
                }
                b.add(format!("h_chunks_{}", a), &[0], 100);
                b.add(format!("h_stream_{}", a), &[2, 0, 1, 3, 1, if deep { 65600 } else { 8200 }, 1], 9000);
                if deep || matches!(a, "sha1" | "sha256" | "sha512" | "ripemd160" | "siphash24") {
                    b.add(format!("h_stream_{}", a), &[2, 0, 1, 3, 3, 65600, 5], 30000);
                }
                b.add(format!("h_chunks_{}", a), &[3, 5, 8200, 7], 9000);
            }
            // without the accelerated path
            b.feat = Off;
            for v in [[0, 0, 1, 3, 1, 63, 1], [1, 0, 1, 3, 63, 2, 64], [1, 0, 1, 3, 5, 128, 0]] {
                b.add("h_stream_sha256", &v, 500);
                b.add("h_stream_tagged", &v, 500);
            }
            b.bound("every engine (6 block hashes, SipHash, tagged SHA-256, 8 HMACs), fresh and from an arbitrary state and length, every content, 3, 4 or many (67 or 131) pieces with a clone taken in between; piece sizes are enumerated around the block boundaries (each case lists its sizes), with pieces of 8 blocks, 8200 and (five engines) 65600 bytes after a short one");
            b.out("other splits, except by composition (any split can be reached through the arbitrary state of the continuation)");
        }
        "C08" => {
            for (cfg, kinds) in [("std", &["h_wstd_", "h_wio_"][..]), ("nostd", &["h_wio_"][..])] {
                b.cfg = cfg;
                for k in kinds {
                    for w in WRITERS {
                        let &(_, s, mac, kb) = ANY.iter().find(|x| x.0 == *w).unwrap();
                        let mut v: Vec<(u64, u64, u64)> = vec![
                            (0, 0, 1),
                            (0, s, 1),
                            (1, s - 1, s),
                            (s - 1, s + 2, 0),
                            (3, 2 * s + 1, 7),
                        ];
                        if deep {
                            for x in 0..=s + 1 {
                                if x % 4 == 0 || !mac {
                                    v.push((x % s, s - x % s, x));
                                    v.push((0, x, s - 1));
                                }
                            }
                        }
                        // a buffer of many blocks
                        if !mac {
                            v.push((5, 5 * s + 3, 1));
                        }
                        for (f, x, y) in v {
                            for st in [0, 1] {
                                let key = if st == 0 && mac { (x * 3) % (kb + 2) } else { 0 };
                                b.add(format!("{}{}", k, w), &[st, key, f, x, y], 6 * (f + x + y) + 300);
                            }
                        }
                    }
                }
                // one large write
                for k in kinds {
                    for w in WRITERS {
                        b.add(format!("{}{}", k, w), &[2, 3, 1, 8200, 1], 9000);
                        if deep || cfg == "std" && matches!(*w, "sha256" | "siphash24" | "tagged") {
                            b.add(format!("{}{}", k, w), &[2, 3, 1, 65600, 1], 90000);
                        }
                    }
                }
            }
            b.bound("14 writers by both interfaces (the no-std one also in a no-std build), fresh and arbitrary engine state, fill levels and buffer sizes enumerated around the block size, one multi-block buffer each, with every content; one buffer of 8200 bytes each (and of 65600 for three) with the last 9 bytes arbitrary; gathering writes of two buffers");
            b.out("other buffer sizes");
        }
        "C09" => {
            for &(a, bl, _) in BLK.iter().chain([("siphash24", 32, 8), ("tagged", 64, 8)].iter()) {
                let keys = if deep { cat(&[&range(0, 2 * bl + 2), &[3 * bl]]) } else { cat(&[&[0, 1, 8], &range(bl - 1, bl + 1), &[bl + 9, 2 * bl, 2 * bl + 1]]) };
                for k in &keys {
                    let edge = *k <= 1 || (*k + 1 >= bl && *k <= bl + 1);
                    let ms: Vec<(u64, u64)> = if edge || deep && k % 16 == 0 {
                        vec![(0, 0), (0, 1), (3, bl), (bl, 5), (0, 2 * bl)]
                    } else {
                        vec![(0, 3), (1, bl - 1)]
                    };
                    for (x, y) in ms {
                        b.add(format!("h_mac_{}", a), &[*k, x, y], 3 * (k + x + y) + 300);
                    }
                }
                for k in [0, 5, bl, bl + 1] {
                    if a != "tagged" {
                        b.add(format!("h_machash_{}", a), &[k, 7], 3 * k + 300);
                    }
                }
                for k in if deep { vec![1000, 4099, 8201, 65536, 65600] } else { vec![300, 8201, 65600] } {
                    if a != "tagged" || k < 1500 {
                        b.add(format!("h_mac_{}", a), &[k, 0, 5], k);
                    }
                }
                for m in if deep { vec![8201, 65600] } else { vec![8201] } {
                    b.add(format!("h_mac_{}", a), &[0, 5, m], 2 * m);
                }
                b.bound(format!("HMAC-{}: keys of {} bytes, messages up to {} bytes in one or two pieces, every content; keys of 300 bytes; keys of up to 65600 bytes with the last 9 arbitrary; messages of 8206 bytes with the last 9 arbitrary under the empty key", a, runs(&keys), 2 * bl));
            }
            b.feat = Off;
            for k in [0, 64, 65] {
                b.add("h_mac_sha256", &[k, 1, 64], 500);
            }
            b.out("longer keys and messages; hash functions other than the crate's own");
        }
        "C10" => {
            for &(a, s, mac, kb) in ANY {
                for st in [0, 1] {
                    let steps: &[u64] = if deep { &[0, 1, 2, 3, 5] } else { &[0, 1, 2] };
                    for k in steps {
                        let ns: Vec<u64> = if deep { cat(&[&[0, 1, 3], &range(s - 1, s + 1), &[2 * s - 9.min(s), 2 * s + 3]]) } else { vec![0, 3, s - 1, s + 1] };
                        for n in ns {
                            let keys: Vec<u64> = if mac && st == 0 { if deep { vec![0, 3, kb, kb + 1] } else { vec![[0, 3, kb + 1][(n % 3) as usize]] } } else { vec![0] };
                            for key in keys {
                                b.add(format!("h_mid_{}", a), &[st, key, *k, n], 3 * (k * s + n) + 200);
                            }
                        }
                    }
                }
            }
            for &(a, s, mac, _) in ANY {
                b.add(format!("h_mid_{}", a), &[2, if mac { 5 } else { 0 }, 8192 / s, 70], 9000);
                if deep {
                    b.add(format!("h_mid_{}", a), &[2, if mac { 5 } else { 0 }, 65536 / s, 70], 90000);
                    b.add(format!("h_mid_{}", a), &[2, if mac { 5 } else { 0 }, 2, 65600], 90000);
                }
            }
            for &(a, _, _) in BLK {
                for k in if deep { vec![0, 1, 2, 3, 4] } else { vec![0, 1, 2] } {
                    b.add(format!("h_midstd_{}", a), &[k], k * 64 + 64);
                }
                b.add(format!("h_midpanic_{}", a), &[], 50);
            }
            b.add("h_midpanic_inherent", &[], 50);
            b.add("h_midpanic_tagged", &[], 50);
            for n in [0, 3, 64, 70] {
                b.add("h_mid_inherent", &[n], 200);
            }
            b.feat = Off;
            for n in [0, 3, 65] {
                b.add("h_mid_sha256", &[1, 0, 1, n], 300);
                b.add("h_mid_tagged", &[0, 0, 1, n], 300);
            }
            b.bound("every engine, fresh and from an arbitrary state and length below 2^60; 0 to 2 (thorough 5) whole blocks before the midstate, enumerated continuation lengths, every content; midstates after 8 KiB (thorough: 64 KiB) with the last 9 bytes arbitrary; every chaining value and every whole-block length (up to 2^64) kept by a resumed block engine; the refusing panic for every length that is not a whole number of blocks (all 2^64)");
            b.out("midstates taken within a block; HMAC lengths that are not whole blocks");
        }
        "C11" => {
            for n in if deep { range(0, 260) } else { cat(&[&range(0, 66), &range(117, 130), &[183, 184, 192]]) } {
                b.add("h_const", &[n], n + 64);
            }
            for n in if deep { vec![1000, 1501, 2048, 4096, 8201, 16384, 32768, 65535, 65536, 65600, 1 << 17] } else { vec![1000, 4096, 8201, 65600] } {
                b.add("h_const_long", &[n], n / 4);
            }
            for n in if deep { vec![1501, 8201, 65600] } else { vec![8201] } {
                b.add("h_tag", &[n, 3], n);
                b.add("h_tag", &[0, n], n);
            }
            for n in if deep { range(0, 130) } else { cat(&[&range(0, 12), &range(30, 34), &range(53, 66), &[119, 120, 128]]) } {
                b.add("h_tag", &[n, [0, 5, 64][(n % 3) as usize]], n + 200);
            }
            for n in if deep { range(0, 130) } else { cat(&[&range(0, 4), &range(53, 66), &[119, 120, 128]]) } {
                b.add("h_tagmsg", &[n / 3, n - n / 3], n + 100);
            }
            b.add("h_consteval", &[], 100);
            b.feat = Off;
            for n in [0, 7, 55, 64] {
                b.add("h_const", &[n], n + 64);
                b.add("h_tag", &[n, n], n + 100);
                b.add("h_tagmsg", &[0, n], n + 100);
            }
            b.bound("const hash over enumerated lengths (0..66,117..130,183,184,192; thorough 0..260) and tags of enumerated lengths with every content, up to 65600 bytes for the hash and 8201 for tags with the last 9 arbitrary; tagged hash from every tag midstate; compile-time evaluation of 14 fixed inputs compared with the same functions at run time");
            b.out("the const evaluator itself (the same function body is checked as run-time code, with compile-time results compared on fixed inputs)");
        }
        "C12" => {
            for (cfg, _, _) in CONFIGS {
                if *cfg == "std" && !deep {
                    continue;
                }
                b.cfg = cfg;
                let has_std = matches!(*cfg, "std" | "opt" | "small");
                for &(a, bl, p) in BLK {
                    let fs: &[Feat] = if a == "sha256" && has_std { &[On, Off] } else { &[On] };
                    for f in fs {
                        b.feat = *f;
                        let ns = if deep { range(0, 2 * bl + 2) } else { cat(&[&[0, 1, 2, 3, 5], &range(bl - p - 1, bl - p + 1), &range(bl - 1, bl + 1), &[2 * bl - p, 2 * bl + 1]]) };
                        for n in ns {
                            b.add(format!("h_oneshot_{}", a), &[n], n + 64);
                        }
                        for q in if deep { range(0, bl - 1) } else { vec![0, 3, bl - p - 1, bl - p, bl - 1] } {
                            b.add(format!("h_resume_{}", a), &[q, 1], q + 64);
                            b.add(format!("h_resume_{}", a), &[q, bl + 3], q + bl + 64);
                        }
                        b.add(format!("h_stream_{}", a), &[1, 0, 1, 3, bl - 1, 2, bl], 4 * bl + 100);
                    }
                    b.feat = On;
                    for k in [3, bl, bl + 1] {
                        b.add(format!("h_mac_{}", a), &[k, 2, bl], 400 + 3 * k);
                    }
                    for k in [1, 2] {
                        b.add(format!("h_midstd_{}", a), &[k], 200);
                    }
                    b.add(format!("h_long_{}", a), &[1000], 400);
                    b.add(format!("h_long_{}", a), &[if deep { 65600 } else { 8201 }], 2000);
                }
                for n in if deep { range(0, 70) } else { cat(&[&range(0, 17), &[31, 64]]) } {
                    b.add("h_sip", &[n], n + 30);
                    b.add("h_const", &[n], n + 64);
                }
                for n in [0, 1, 7, 9] {
                    b.add("h_resume_siphash24", &[n % 8, n], 60);
                    b.add("h_mac_siphash24", &[33, n, 3], 100);
                }
                for n in [0, 9, 55, 56, 64] {
                    b.add("h_tag", &[n, 3], n + 200);
                    b.add("h_tagmsg", &[1, n], n + 100);
                }
                b.add("h_consteval", &[], 100);
            }
            b.bound("builds: optimised default (no run-time checks), small-hash with std, small-hash optimised without std, no-std; each compared with the same standards the checked default build is compared with (C01-C06, C09, C11), over enumerated lengths with every content and from arbitrary states");
            b.out("targets other than x86-64; other combinations of the same features; opt-levels other than 1 with run-time checks and 3 without");
        }
        "C13" => {
            for &(t, n) in VAL2 {
                for f in 0..8 {
                    b.add(format!("h_text_{}", t), &[f], 20 * n);
                }
                for (l, full) in [(2 * n, true), (0, false), (1, false), (2 * n - 1, false), (2 * n + 1, false), (2 * n - 2, false), (2 * n + 2, false), (n, false), (4 * n, false), (2 * n + 256, false), (2 * n + 65536, false)] {
                    let c = b.add(format!("h_parse_{}", t), &[l, 0, 0], if full { 40 * n } else { l });
                    c.reach = if full { vec![1, 2] } else { vec![2] };
                }
                let pos: Vec<u64> = if deep { range(0, 2 * n) } else { vec![0, 1, n, (2 * n).saturating_sub(4)] };
                for k in [2, 3, 4] {
                    for p in &pos {
                        if p + k > 2 * n {
                            continue;
                        }
                        let c = b.add(format!("h_parse_{}", t), &[2 * n, k, *p], 30 * n);
                        c.reach = vec![2];
                    }
                    if k <= 2 * n {
                        let c = b.add(format!("h_parse_{}", t), &[2 * n, k, 2 * n - k], 30 * n);
                        c.reach = vec![2];
                    }
                }
                if deep {
                    for l in 0..2 * n + 20 {
                        if l != 2 * n {
                            b.add(format!("h_parse_{}", t), &[l, 0, 0], 10 * n);
                        }
                    }
                    b.add(format!("h_parse_{}", t), &[4096, 0, 0], 10 * n);
                }
            }
            b.bound("16 types (7 HMAC widths from 1 to 128), every value, 8 text forms; parsing every ASCII string of the right length, and of the listed wrong lengths, and strings of the right byte length with one 2-, 3- or 4-byte character at the listed places");
            b.out("strings of other wrong lengths (thorough: up to 20 more than right, and 4096); strings with several non-ASCII characters; width and precision flags");
        }
        "C14" => {
            for &(t, n) in VAL2 {
                if t == "hmac128" && !deep {
                    continue;
                }
                for m in 0..3 {
                    b.add(format!("h_serial_{}", t), &[0, m], 10 * n);
                    b.add(format!("h_serial_{}", t), &[1, m], 40 * n);
                }
                for m in 0..6 {
                    let c = b.add(format!("h_detext_{}", t), &[2 * n, 0, 0, m], 40 * n);
                    c.reach = vec![1, 2];
                    for l in if deep { cat(&[&range(0, 2 * n - 1), &range(2 * n + 1, 2 * n + 12)]) } else { cat(&[&[0, 2 * n - 2, 2 * n - 1, 2 * n + 1, 2 * n + 2, 2 * n + 256, n]]) } {
                        b.add(format!("h_detext_{}", t), &[l, 0, 0, m], 10 * n);
                    }
                    b.add(format!("h_detext_{}", t), &[2 * n, 2, n - n % 2, m], 30 * n);
                }
                for p in if deep { range(0, 2 * n - 1) } else { vec![0, n, 2 * n - 1] } {
                    b.add(format!("h_debad_{}", t), &[2 * n, p], 10 * n);
                }
                for m in 0..3 {
                    for l in if deep { cat(&[&range(0, 2 * n + 3)]) } else { cat(&[&[0, 1], &range(n - 1, n + 1), &[2 * n, 8, 20, 32, 48, 64, n + 256, n + 65536]]) } {
                        b.add(format!("h_debytes_{}", t), &[l, m], 5 * n);
                    }
                }
            }
            b.bound("15 types (thorough 16), every value; text of the right and the listed wrong lengths, handed over as borrowed, transient or owned string or bytes; byte strings of the listed lengths in the three ways; every content (ASCII, one longer character, one stray byte)");
            b.out("serde formats other than through the data model (a recording serializer and a one-value deserializer stand for them)");
        }
        "C15" => {
            for &(t, n) in VAL2 {
                for l in if deep { cat(&[&range(0, 2 * n + 2), &[255, 256, 4096]]) } else { cat(&[&[0, 1], &range(n - 1, n + 1), &[8, 20, 28, 32, 48, 64, 2 * n, 129, 256 + n, 65536 + n]]) } {
                    b.add(format!("h_slice_{}", t), &[l], l + n);
                }
                let mut rs = vec![(0, n), (0, 0), (n, n), (1, n - 1), (3, 7), (n - 1, n), (0, 1)];
                if deep {
                    for x in 0..=n {
                        for y in x..=n {
                            if n <= 20 || (x + 2 * y) % 3 == 0 {
                                rs.push((x, y));
                            }
                        }
                    }
                }
                for (x, y) in rs {
                    if x > y || y > n {
                        continue;
                    }
                    b.add(format!("h_views_{}", t), &[x, y], 2 * n);
                }
            }
            b.bound("16 types, every value and every slice content; slice lengths and index ranges enumerated");
            b.out("slice lengths not listed");
        }
        "C16" => {
            for &(t, n) in VAL2 {
                if t == "hmac128" && !deep {
                    continue;
                }
                b.add(format!("h_coherent_{}", t), &[], n * n);
                if deep {
                    b.cfg = "opt";
                    b.add(format!("h_coherent_{}", t), &[], n * n);
                    b.cfg = "std";
                }
            }
            b.bound("15 types (thorough 16), every pair of values");
        }
        "C17" => {
            for cfg in ["std", "opt"] {
                b.cfg = cfg;
                for n in if deep { range(0, 300) } else { cat(&[&range(0, 70), &[96, 127, 128, 129, 200, 256]]) } {
                    b.add("h_fixed", &[n], n * 4 + 10);
                }
                for n in if deep { vec![512, 1000, 1024, 4096, 65535, 65536, 65537, 65600, 1 << 17] } else { vec![300, 512, 1025, 4096, 65600] } {
                    b.add("h_fixed", &[n], n);
                }
                let m = if deep { 40 } else { 12 };
                for x in 0..m {
                    for y in 0..m {
                        if x != y {
                            b.add("h_fixed_len", &[x, y], 10);
                        }
                    }
                }
                for (x, y) in [(32, 33), (33, 32), (20, 32), (64, 63), (64, 0), (0, 64), (64, 128), (256, 255), (256, 0), (1, 257), (65537, 1), (3, 65539), (65536, 0), (0, 65536)] {
                    b.add("h_fixed_len", &[x, y], 10);
                }
            }
            b.bound(format!("every content of slices of {} bytes; slices up to 65600 bytes (thorough 2^17) with 9 arbitrary bytes at each end and in the middle; refused length pairs 0..{} and 14 larger ones; checked and optimised builds", if deep { "0..300" } else { "0..70,96,127..129,200,256" }, if deep { 39 } else { 11 }));
            b.out("other lengths; long slices differing elsewhere");
        }
        "C18" => {
            for cfg in ["std", "opt", "small", "smallopt", "nostd"] {
                b.cfg = cfg;
                for n in if deep { range(0, 260) } else { cat(&[&range(0, 40), &[48, 63, 64, 65, 100, 128]]) } {
                    b.add("h_ct", &[n], n * 4 + 10);
                }
                for n in if deep { vec![300, 512, 1024, 4096, 65600] } else { vec![200, 300, 1025, 65600] } {
                    b.add("h_ct", &[n], n);
                }
            }
            b.bound(format!("every content of slices of {} bytes, and slices up to 65600 bytes with 9 arbitrary bytes at each end and in the middle; the LLVM code of five builds (opt-level 1 and 3): no branch condition, address or length operand between entry and return depends on the contents", if deep { "0..260" } else { "0..40,48,63..65,100,128" }));
            b.out("instruction selection below LLVM IR, micro-architectural effects, longer slices");
        }
        "C19" => {
            b.safety = true;
            for cfg in ["std", "opt"] {
                b.cfg = cfg;
                for &(a, bl, p) in BLK {
                    let fs: &[Feat] = if a == "sha256" { &[On, Off] } else { &[On] };
                    for f in fs {
                        b.feat = *f;
                        for n in if deep { range(0, 3 * bl + 2) } else { cat(&[&range(0, 9), &range(bl - p - 2, bl + 2), &[2 * bl - 1, 2 * bl, 2 * bl + 1]]) } {
                            b.add(format!("h_oneshot_{}", a), &[n], n);
                        }
                        for q in if deep { range(0, bl - 1) } else { cat(&[&[0, 1, 2, 31], &range(bl - p - 1, bl - 1)]) } {
                            for n in [0, 1, bl - q, bl - q + 1, 2 * bl + 1] {
                                b.add(format!("h_resume_{}", a), &[q, n], n);
                            }
                        }
                        b.add(format!("h_midstd_{}", a), &[1], 50);
                    }
                    b.feat = On;
                    for k in [0, 1, bl - 1, bl, bl + 1, 3 * bl] {
                        b.add(format!("h_mac_{}", a), &[k, 3, 5], 100);
                        b.add(format!("h_machash_{}", a), &[k, 5], 100);
                    }
                    b.add(format!("h_long_{}", a), &[if deep { 70001 } else { 3001 }], 900);
                }
                for n in if deep { range(0, 100) } else { range(0, 33) } {
                    b.add("h_sip", &[n], n);
                    b.add("h_const", &[n], n);
                }
                for q in 0..8 {
                    for n in 0..if deep { 30 } else { 18 } {
                        b.add("h_resume_siphash24", &[q, n], n);
                    }
                }
                for n in [0, 1, 55, 56, 63, 64, 65, 119, 120] {
                    b.add("h_const", &[n], n);
                    b.add("h_tag", &[n, n / 2], n);
                    b.add("h_tagmsg", &[n / 2, n - n / 2], n);
                }
                for &(a, s, mac, kb) in ANY {
                    for v in [[1, s - 1, 2], [s - 1, 2 * s + 2, 1], [0, 3 * s, 0]] {
                        b.add(format!("h_stream_{}", a), &[1, 0, 1, 3, v[0], v[1], v[2]], 4 * s);
                        b.add(format!("h_stream_{}", a), &[0, if mac { kb + 1 } else { 0 }, 1, 3, v[0], v[1], v[2]], 4 * s);
                    }
                    for k in [0, 1] {
                        for n in [0, 1, s + 1] {
                            b.add(format!("h_mid_{}", a), &[k, 2, k, n], 4 * s);
                        }
                    }
                }
                for w in WRITERS {
                    for k in ["h_wstd_", "h_wio_"] {
                        b.add(format!("{}{}", k, w), &[1, 0, 3, 70, 5], 300);
                    }
                }
                for n in if deep { range(0, 140) } else { cat(&[&range(0, 34), &[63, 64, 65]]) } {
                    b.add("h_fixed", &[n], n);
                }
                for &(t, n) in VAL {
                    for f in [0, 2, 3] {
                        b.add(format!("h_text_{}", t), &[f], 5 * n);
                    }
                    for l in cat(&[&[0, 1, 2], &range(2 * n - 2, 2 * n + 2), &[n, 300]]) {
                        b.add(format!("h_parse_{}", t), &[l, 0, 0], 20 * n);
                    }
                    for k in [2, 3, 4] {
                        for p in [0, 1, n, 2 * n - k] {
                            b.add(format!("h_parse_{}", t), &[2 * n, k, p], 20 * n);
                        }
                    }
                    for l in cat(&[&[0, 1], &range(n - 1, n + 1), &[2 * n, 200]]) {
                        b.add(format!("h_slice_{}", t), &[l], n);
                        b.add(format!("h_debytes_{}", t), &[l, l % 3], n);
                    }
                    for (x, y) in [(0, n), (n, n), (1, n - 1)] {
                        b.add(format!("h_views_{}", t), &[x, y], n);
                    }
                    for m in [0, 1, 3, 5] {
                        b.add(format!("h_detext_{}", t), &[2 * n, 0, 0, m], 20 * n);
                        b.add(format!("h_detext_{}", t), &[2 * n - 1, 0, 0, m], 20 * n);
                    }
                    b.add(format!("h_debad_{}", t), &[2 * n, n], n);
                    b.add(format!("h_serial_{}", t), &[0, 0], n);
                    b.add(format!("h_serial_{}", t), &[1, 0], n);
                    b.add(format!("h_coherent_{}", t), &[], n);
                }
                if deep {
                    for (l, _) in [(0u64, 0u64), (4096, 0), (5000, 0)] {
                        b.add("h_parse_sha256", &[l, 0, 0], 300);
                        b.add("h_slice_sha256", &[l], 300);
                    }
                }
            }
            for cfg in ["small", "smallopt", "nostd"] {
                b.cfg = cfg;
                for &(a, bl, p) in BLK {
                    let fs: &[Feat] = if a == "sha256" && cfg == "small" { &[On, Off] } else { &[On] };
                    for f in fs {
                        b.feat = *f;
                        for n in [0, 1, bl - p - 1, bl - p, bl - 1, bl, 2 * bl + 1] {
                            b.add(format!("h_oneshot_{}", a), &[n], n);
                            b.add(format!("h_resume_{}", a), &[n % bl, n], n);
                        }
                    }
                    b.feat = On;
                }
                for n in 0..18 {
                    b.add("h_sip", &[n], n);
                    b.add("h_resume_siphash24", &[n % 8, n], n);
                }
            }
            b.bound("every call of the other properties' harnesses (see cases), every content, buffers byte-aligned with nothing accessible around them, both SHA-256 paths, five builds: every load, store and copy is in bounds of a live object and aligned as its instruction requires, no branch or result depends on an uninitialised byte, no panic, no overflow trap, no undefined operation");
            b.out("lengths and fill levels not listed; behaviour above 2^60 bytes");
        }
        "C20" => {
            for &(t, n) in VAL2 {
                if t != "midstate" {
                    b.add(format!("h_schema_{}", t), &[], n);
                }
            }
            b.bound("15 types (7 HMAC widths from 1 to 128), every value");
            b.out("patterns using regular-expression features beyond sets, escapes and counts are reported as undecided");
        }
        _ => return None,
    }
    // no duplicates
    let mut seen = std::collections::HashSet::new();
    b.cases.retain(|c| seen.insert((c.cfg, c.entry.clone(), c.args.clone(), c.feat as u8)));
    Some(Plan { cases: b.cases, bounds: b.bounds, outside: b.outside, mined: vec![] })
}

/// Numbers that appear in every version of the code and whose neighbourhood the plans enumerate.
const USUAL: &[u64] = &[12, 16, 20, 31, 32, 40, 48, 56, 60, 63, 64, 80, 112, 127, 128, 255, 256];

/// Adds cases with sizes around the numbers the code under test compares something with.
pub fn extend(
    id: &str,
    p: &mut Plan,
    mined: &std::collections::BTreeSet<(String, u64)>,
    cfgs: &std::collections::BTreeSet<&'static str>,
) {
    let near = |files: &[&str], top: u64, most: usize| -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        let ks: std::collections::BTreeSet<u64> =
            mined.iter().filter(|(f, k)| files.contains(&f.as_str()) && !USUAL.contains(k)).map(|x| x.1).collect();
        for k in ks.iter().take(most) {
            v.extend([k - 1, *k, k + 1].iter().filter(|x| **x <= top));
        }
        v.sort();
        v.dedup();
        v
    };
    let mut b = B {
        cases: vec![],
        bounds: vec![],
        outside: vec![],
        cfg: "std",
        feat: Feat::On,
        safety: id == "C19",
        deep: false,
    };
    // the source files behind an engine
    let files = |a: &str| -> Vec<&'static str> {
        let mut v = vec!["internal_macros", "lib", "impls"];
        if a.starts_with("hmac") {
            v.push("hmac");
        }
        v.extend(match a.trim_start_matches("hmac_") {
            "sha1" => &["sha1"][..],
            "sha256" => &["sha256"],
            "sha384" => &["sha384", "sha512"],
            "sha512" => &["sha512"],
            "sha512_256" => &["sha512_256", "sha512"],
            "ripemd160" => &["ripemd160"],
            "siphash24" => &["siphash24"],
            _ => &["sha256t", "sha256"],
        });
        v
    };
    let digests: &[&str] = match id {
        "C01" => &["sha256"],
        "C03" => &["sha512", "sha384", "sha512_256"],
        "C04" => &["sha1"],
        "C05" => &["ripemd160"],
        "C12" | "C19" => &["sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160"],
        _ => &[],
    };
    let in_cfgs: Vec<&'static str> = CONFIGS.iter().map(|c| c.0).filter(|c| cfgs.contains(c)).collect();
    for a in digests {
        for cfg in &in_cfgs {
            b.cfg = cfg;
            for n in near(&files(a), 1 << 17, 8) {
                b.add(format!("h_long_{}", a), &[n], n);
                if *a == "sha256" && matches!(*cfg, "std" | "opt" | "small") {
                    b.feat = Feat::Off;
                    b.add(format!("h_long_{}", a), &[n], n);
                    b.feat = Feat::On;
                }
            }
        }
    }
    b.cfg = if cfgs.contains("std") { "std" } else { in_cfgs.first().copied().unwrap_or("std") };
    match id {
        "C06" => {
            for n in near(&files("siphash24"), 1 << 17, 12) {
                b.add("h_sip_default", &[n], n);
                if n <= 520 {
                    b.add("h_sip", &[n], 8 * n);
                }
            }
        }
        "C07" | "C19" => {
            for &(a, _, _, _) in ANY {
                for n in near(&files(a), 1 << 17, 8) {
                    b.add(format!("h_stream_{}", a), &[2, 0, 1, 3, 1, n, 1], n);
                    b.add(format!("h_stream_{}", a), &[2, 0, 1, 3, n, 1, 1], n);
                    if id == "C07" {
                        b.add(format!("h_chunks_{}", a), &[2, 2, n], n);
                    }
                }
            }
        }
        "C08" => {
            for w in WRITERS {
                for n in near(&files(w), 1 << 17, 8) {
                    b.add(format!("h_wstd_{}", w), &[2, 3, 1, n, 1], 2 * n);
                    b.add(format!("h_wio_{}", w), &[2, 3, 1, n, 1], 2 * n);
                }
            }
        }
        "C09" => {
            for a in ["sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160", "siphash24", "tagged"] {
                for n in near(&files(&format!("hmac_{}", a)), 1 << 17, 8) {
                    b.add(format!("h_mac_{}", a), &[n, 0, 5], n);
                    b.add(format!("h_mac_{}", a), &[0, 0, n], n);
                }
            }
        }
        "C10" => {
            for &(a, s, mac, _) in ANY {
                for n in near(&files(a), 1 << 17, 8) {
                    let key = if mac { 5 } else { 0 };
                    b.add(format!("h_mid_{}", a), &[2, key, n / s, 70], n);
                    b.add(format!("h_mid_{}", a), &[2, key, n / s + 1, 3], n);
                    b.add(format!("h_mid_{}", a), &[2, key, 1, n], n);
                }
            }
        }
        "C11" => {
            for n in near(&["sha256", "sha256t", "lib", "internal_macros"], 1 << 17, 12) {
                b.add("h_const_long", &[n], n);
                b.add("h_tag", &[n, 3], n);
                b.add("h_tag", &[0, n], n);
            }
        }
        "C13" | "C14" | "C15" => {
            for &(t, n) in VAL2 {
                let f = match t {
                    "tagged" => "sha256t",
                    "midstate" => "sha256",
                    t if t.starts_with("hmac") => "hmac",
                    t => t,
                };
                for l in near(&[f, "lib", "internal_macros", "impls", "serde_macros"], 1 << 17, 8) {
                    match id {
                        "C13" if l != 2 * n => {
                            b.add(format!("h_parse_{}", t), &[l, 0, 0], 10);
                        }
                        "C14" => {
                            b.add(format!("h_debytes_{}", t), &[l, 0], 10);
                            if l != 2 * n {
                                b.add(format!("h_detext_{}", t), &[l, 0, 0, 0], 10);
                                b.add(format!("h_detext_{}", t), &[l, 0, 0, 3], 10);
                            }
                        }
                        "C15" => {
                            b.add(format!("h_slice_{}", t), &[l], 10);
                        }
                        _ => {}
                    }
                }
            }
        }
        "C17" | "C18" => {
            for cfg in &in_cfgs {
                b.cfg = cfg;
                for n in near(&["cmp"], 1 << 17, 12) {
                    b.add(if id == "C17" { "h_fixed" } else { "h_ct" }, &[n], n);
                }
            }
        }
        _ => {}
    }
    let had: std::collections::HashSet<_> = p.cases.iter().map(|c| (c.cfg, c.entry.clone(), c.args.clone(), c.feat as u8)).collect();
    let mut seen = had.clone();
    for mut c in b.cases {
        if seen.insert((c.cfg, c.entry.clone(), c.args.clone(), c.feat as u8)) {
            c.extra = true;
            p.cases.push(c);
        }
    }
    if p.cases.iter().any(|c| c.extra) {
        p.mined = mined.iter().filter(|x| !USUAL.contains(&x.1)).map(|(f, k)| format!("{}: {}", f, k)).collect();
        p.bounds.push("plus sizes next to numbers the code compares something with (see sizes_from_code), as far as time allows".into());
    }
}
