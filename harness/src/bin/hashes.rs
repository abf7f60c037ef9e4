//! C19..C22: hash functions and the constructions over them, against references from the standards.
use hacspec::prelude::*;
use hacspec_examples::{blake2::blake2b, fips202, hkdf, hmac, sha2};
use std::sync::OnceLock;
use vh::refs::hash as rf;
use vh::*;

fn seq(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
fn out<'a>(it: impl Iterator<Item = &'a U8>) -> String {
    hex(&it.map(|x| x.declassify()).collect::<Vec<u8>>())
}
fn sha() -> &'static rf::Sha256 {
    static S: OnceLock<rf::Sha256> = OnceLock::new();
    S.get_or_init(rf::Sha256::new)
}
fn blake() -> &'static rf::Blake2b {
    static S: OnceLock<rf::Blake2b> = OnceLock::new();
    S.get_or_init(rf::Blake2b::new)
}
/// Where the length falls relative to the block structure.
fn len_class(r: &mut Rec, n: usize, block: usize) {
    r.class_if(n == 0, "empty");
    r.class_if(n > 0 && n % block == 0, "block-multiple");
    r.class_if(n > block, "multi-block");
    r.class_if(n % block == block - 1, "block-1");
    r.class(format!("blocks={}", (n / block).min(9)));
}
fn content(n: usize, seed: u8) -> Vec<u8> {
    // position-dependent content so that a misplaced byte or block shows
    (0..n).map(|i| (i as u8).wrapping_mul(167).wrapping_add(((i >> 8) as u8).wrapping_mul(59)).wrapping_add(((i >> 16) as u8).wrapping_mul(101)).wrapping_add(seed)).collect()
}

/// Lengths whose block counts do not fit the small integer types.
const FAR: [usize; 6] = [(1 << 17) - 1, (1 << 17) + 57, (1 << 20) + 1, 1 << 21, (1 << 23) + 129, (1 << 24) + 64];

fn c19(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the message is not one of the empty message and a message of a single repeated byte");
    let check = |m: &B, r: &mut Rec| -> Res {
        r.nontrivial(m.len() > 1 && m.iter().any(|b| *b != m[0]));
        len_class(r, m.len(), 64);
        r.class_if(m.len() % 64 >= 56, "length-in-extra-block");
        let d = no_panic("sha2::hash", || sha2::hash(&seq(m)))?;
        eq("sha-256 digest", out(d.iter()), hex(&sha().hash(m)))
    };
    // Lengths far beyond a block counter of 8 or 16 bits, and a bit length beyond 32 bits.
    let mut far = FAR.to_vec();
    far.push((1 << 29) + 5);
    ctx.exhaust("sha256-far", far.into_iter(), |n: &usize, r: &mut Rec| {
        r.nontrivial(true);
        let m = content(*n, 1);
        let d = no_panic("sha2::hash", || sha2::hash(&seq(&m)))?;
        eq("sha-256 digest", out(d.iter()), hex(&sha().hash(&m)))
    });
    ctx.factor(8);
    ctx.run("sha256", 12_000, 150_000, || bytes_of(blen(64, 6)), check);
    ctx.run("sha256-long", 100, 2_000, || bytes_of(prop_oneof![4 => 384..5_000usize, 1 => 8_000..9_000usize, 1 => 65_500..65_700usize]), check);
    let n = if ctx.thorough() { 2049 } else { 577 };
    ctx.exhaust("sha256-every-length", (0..n).map(|n| B(content(n, 3))), check);
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Flip {
        m: B,
        bit: usize,
    }
    // A digest depends on every bit and on the length of the message.
    ctx.run(
        "sha256-distinguishes",
        3_000,
        30_000,
        || bytes_of(blen(64, 5).prop_map(|n| n.max(1))).prop_flat_map(|m| { let n = m.len() * 8; (Just(m), 0..n + 2) }).prop_map(|(m, bit)| Flip { m, bit }),
        |f: &Flip, r: &mut Rec| {
            r.nontrivial(true);
            let mut m2 = f.m.0.clone();
            if f.bit < f.m.len() * 8 {
                m2[f.bit / 8] ^= 1 << (f.bit % 8);
                r.class("bit-flip");
            } else if f.bit == f.m.len() * 8 {
                m2.push(0);
                r.class("append-zero");
            } else {
                m2.push(0x80);
                r.class("append-80");
            }
            let a = out(sha2::hash(&seq(&f.m)).iter());
            let b = out(sha2::hash(&seq(&m2)).iter());
            ensure(a != b, || format!("two different messages have the digest {}", a))
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mac {
    k: B,
    t: B,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hkdf {
    salt: B,
    ikm: B,
    info: B,
    l: usize,
}
fn c20(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("key and text (for HKDF: input key material and output length) are non-empty");
    ctx.factor(3);
    let mac = |c: &Mac, r: &mut Rec| -> Res {
        r.nontrivial(!c.k.is_empty() && !c.t.is_empty());
        r.class_if(c.k.len() > 64, "key-longer-than-block");
        r.class_if(c.k.len() == 64, "key-exactly-block");
        r.class_if(c.k.is_empty(), "empty-key");
        r.class_if(c.k.len() < 64 && !c.k.is_empty(), "key-shorter-than-block");
        r.class_if(c.t.is_empty(), "empty-text");
        let p = no_panic("hmac", || hmac::hmac(&seq(&c.k), &seq(&c.t)))?;
        eq("hmac-sha-256", out(p.iter()), hex(&sha().hmac(&c.k, &c.t)))
    };
    ctx.run("hmac", 5_000, 60_000, || (bytes_of(blen(64, 3)), bytes_of(blen(64, 4))).prop_map(|(k, t)| Mac { k, t }), mac);
    // lengths that a byte or 16 bits cannot hold
    let far = || prop_oneof![4 => 0..70usize, 3 => 250..262usize, 3 => 262..700usize, 1 => 4_090..4_100usize, 1 => 65_500..65_700usize];
    ctx.run("hmac-long", 120, 3_000, || (bytes_of(far()), bytes_of(far())).prop_map(|(k, t)| Mac { k, t }), mac);
    ctx.exhaust("hmac-far", FAR.iter().flat_map(|n| [(40, *n), (*n, 40), (64, *n), (*n, 0)]), |(k, t): &(usize, usize), r: &mut Rec| {
        r.nontrivial(*k > 0 && *t > 0);
        let (k, t) = (content(*k, 5), content(*t, 6));
        let p = no_panic("hmac", || hmac::hmac(&seq(&k), &seq(&t)))?;
        eq("hmac-sha-256", out(p.iter()), hex(&sha().hmac(&k, &t)))
    });
    let top = if ctx.thorough() { 260 } else { 132 };
    ctx.exhaust("hmac-every-key-length", (0..top).map(|n| Mac { k: B(content(n, 9)), t: B(content(n * 7 % 90, 1)) }), mac);
    ctx.run(
        "hkdf-extract",
        3_000,
        40_000,
        || (bytes_of(blen(64, 3)), bytes_of(blen(64, 3))).prop_map(|(k, t)| Mac { k, t }),
        |c: &Mac, r: &mut Rec| {
            r.nontrivial(!c.k.is_empty() && !c.t.is_empty());
            r.class_if(c.k.is_empty(), "no-salt");
            r.class_if(c.k.len() > 64, "long-salt");
            let p = no_panic("extract", || hkdf::extract(&seq(&c.k), &seq(&c.t)))?;
            eq("hkdf extract", out(p.iter()), hex(&sha().extract(&c.k, &c.t)))
        },
    );
    let exp = |c: &Hkdf, r: &mut Rec| -> Res {
        r.nontrivial(!c.ikm.is_empty() && c.l > 0);
        r.class_if(c.l == 0, "zero-output");
        r.class_if(c.l == 255 * 32, "largest-output");
        r.class_if(c.l % 32 == 0 && c.l > 0, "whole-blocks");
        r.class_if(c.l > 32, "several-blocks");
        r.class_if(c.l > 128 * 32, "counter-high-bit");
        r.class_if(c.info.is_empty(), "empty-info");
        let prk = no_panic("extract", || hkdf::extract(&seq(&c.salt), &seq(&c.ikm)))?;
        let okm = no_panic("expand", || hkdf::expand(&ByteSeq::from_seq(&prk), &seq(&c.info), c.l))?;
        eq("hkdf output", out(okm.iter()), hex(&sha().expand(&sha().extract(&c.salt, &c.ikm), &c.info, c.l)))
    };
    let l = || {
        prop_oneof![
            6 => 0..200usize, 6 => (0..10usize, -1i64..=1).prop_map(|(k, d)| (k as i64 * 32 + d).max(0) as usize),
            1 => (0..255usize, -1i64..=1).prop_map(|(k, d)| (k as i64 * 32 + d).max(0) as usize),
            1 => 8100..=8160usize,
        ]
    };
    ctx.run(
        "hkdf",
        1_500,
        20_000,
        move || (bytes_of(blen(64, 2)), bytes_of(blen(32, 4)), bytes_of(blen(32, 3)), l()).prop_map(|(salt, ikm, info, l)| Hkdf { salt, ikm, info, l }),
        exp,
    );
    ctx.run(
        "hkdf-long",
        60,
        1_500,
        move || (bytes_of(far()), bytes_of(far()), bytes_of(far()), prop_oneof![4 => 0..100usize, 1 => 250..260usize, 1 => 500..520usize]).prop_map(|(salt, ikm, info, l)| Hkdf { salt, ikm, info, l }),
        exp,
    );
    ctx.exhaust(
        "hkdf-output-lengths",
        (0..=255usize).flat_map(|k| [k * 32, (k * 32).saturating_sub(1)]).map(|l| Hkdf { salt: B(content(l % 70, 5)), ikm: B(content(22, 1)), info: B(content(l % 41, 2)), l }),
        exp,
    );
    // The largest documented output is 255 blocks: more must be refused, never truncated or repeated.
    ctx.run(
        "hkdf-too-long",
        50,
        500,
        || (bytes_of(32..70usize), bytes_of(0..40usize), prop_oneof![8161..8200usize, 8161..70_000usize]).prop_map(|(ikm, info, l)| Hkdf { salt: B(vec![]), ikm, info, l }),
        |c: &Hkdf, r: &mut Rec| {
            r.nontrivial(true);
            must_panic("expand", || hkdf::expand(&seq(&c.ikm), &seq(&c.info), c.l).len())
        },
    );
    // expand with a key that is not an extract output (any length from HashLen up)
    ctx.run(
        "hkdf-expand",
        1_500,
        20_000,
        || (bytes_of(32..100usize), bytes_of(blen(32, 3)), 0..260usize).prop_map(|(ikm, info, l)| Hkdf { salt: B(vec![]), ikm, info, l }),
        |c: &Hkdf, r: &mut Rec| {
            r.nontrivial(c.l > 0);
            r.class_if(c.ikm.len() > 64, "key-longer-than-block");
            let okm = no_panic("expand", || hkdf::expand(&seq(&c.ikm), &seq(&c.info), c.l))?;
            eq("hkdf output", out(okm.iter()), hex(&sha().expand(&c.ikm, &c.info, c.l)))
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Keccak {
    /// 0..4 SHA3-224/256/384/512, 4 SHAKE128, 5 SHAKE256
    f: u8,
    m: B,
    l: usize,
}
const RATES: [usize; 6] = [144, 136, 104, 72, 168, 136];
fn keccak_check(c: &Keccak, r: &mut Rec) -> Res {
    let rate = RATES[c.f as usize];
    r.nontrivial(c.m.len() > 1 && c.m.iter().any(|b| *b != c.m[0]));
    r.class(["sha3-224", "sha3-256", "sha3-384", "sha3-512", "shake128", "shake256"][c.f as usize]);
    len_class(r, c.m.len(), rate);
    if c.f >= 4 {
        r.class_if(c.l == 0, "no-output");
        r.class_if(c.l > rate, "several-squeezes");
        r.class_if(c.l > 0 && c.l % rate == 0, "output-block-multiple");
    }
    let s = seq(&c.m);
    let (got, want) = match c.f {
        0 => (out(no_panic("sha3224", || fips202::sha3224(&s))?.iter()), rf::sha3(224, &c.m)),
        1 => (out(no_panic("sha3256", || fips202::sha3256(&s))?.iter()), rf::sha3(256, &c.m)),
        2 => (out(no_panic("sha3384", || fips202::sha3384(&s))?.iter()), rf::sha3(384, &c.m)),
        3 => (out(no_panic("sha3512", || fips202::sha3512(&s))?.iter()), rf::sha3(512, &c.m)),
        4 => (out(no_panic("shake128", || fips202::shake128(&s, c.l))?.iter()), rf::shake(128, &c.m, c.l)),
        _ => (out(no_panic("shake256", || fips202::shake256(&s, c.l))?.iter()), rf::shake(256, &c.m, c.l)),
    };
    eq("digest", got, hex(&want))
}
fn c21(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the message has at least two different bytes");
    ctx.factor(8);
    let gen = || {
        (0..6u8).prop_flat_map(|f| {
            let rate = RATES[f as usize];
            let l = if f >= 4 { blen(rate, 4).boxed() } else { Just(0usize).boxed() };
            (bytes_of(blen(rate, 4)), l).prop_map(move |(m, l)| Keccak { f, m, l })
        })
    };
    ctx.run("keccak", 12_000, 150_000, gen, keccak_check);
    ctx.run(
        "keccak-long",
        60,
        1_500,
        || (0..6u8, bytes_of(prop_oneof![700..3_000usize, 4_000..4_200usize]), 0..2_000usize).prop_map(|(f, m, l)| Keccak { f, m, l: if f >= 4 { l } else { 0 } }),
        keccak_check,
    );
    ctx.run(
        "keccak-far",
        30,
        600,
        || {
            let far = || prop_oneof![65_400..65_700usize, 32_700..33_000usize, 8_150..8_250usize];
            prop_oneof![
                (0..6u8, bytes_of(far()), 0..300usize).prop_map(|(f, m, l)| Keccak { f, m, l: if f >= 4 { l } else { 0 } }),
                (4..6u8, bytes_of(0..300usize), far()).prop_map(|(f, m, l)| Keccak { f, m, l }),
            ]
        },
        keccak_check,
    );
    // (function, message length, output length) far beyond 8 and 16 bits of bytes and of blocks
    let long: &[usize] = if ctx.thorough() { &FAR } else { &[(1 << 20) + 1, (1 << 24) + 64] };
    let cases: Vec<(u8, usize, usize)> =
        long.iter().flat_map(|n| (0..6u8).map(move |f| (f, *n, if f >= 4 { 500 } else { 0 }))).chain(long.iter().flat_map(|n| [(4, 100, *n), (5, 200, *n)])).collect();
    ctx.exhaust("keccak-very-far", cases.into_iter(), |(f, n, l): &(u8, usize, usize), r: &mut Rec| {
        keccak_check(&Keccak { f: *f, m: B(content(*n, 2)), l: *l }, r)
    });
    let n = if ctx.thorough() { 700 } else { 345 };
    ctx.exhaust("keccak-every-length", (0..6u8).flat_map(move |f| (0..n).map(move |k| Keccak { f, m: B(content(k, f)), l: if f >= 4 { 40 } else { 0 } })), keccak_check);
    ctx.exhaust("shake-every-output-length", (4..6u8).flat_map(move |f| (0..n).map(move |k| Keccak { f, m: B(content(k % 50, f)), l: k })), keccak_check);
    // The output of the extendable functions is one stream: a shorter output is a prefix of a longer one.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Pre {
        f: bool,
        m: B,
        a: usize,
        b: usize,
    }
    ctx.run(
        "shake-prefix",
        1_500,
        20_000,
        || (any::<bool>(), bytes_of(blen(168, 2)), blen(168, 3), blen(168, 3)).prop_map(|(f, m, a, b)| Pre { f, m, a, b }),
        |c: &Pre, r: &mut Rec| {
            r.nontrivial(c.a != c.b && c.a.min(c.b) > 0);
            let s = seq(&c.m);
            let g = |l| out(if c.f { fips202::shake128(&s, l) } else { fips202::shake256(&s, l) }.iter());
            let (a, b) = (g(c.a.min(c.b)), g(c.a.max(c.b)));
            ensure(b.starts_with(&a), || "a shorter output is not a prefix of a longer one".into())
        },
    );
}

fn c22(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the message has at least two different bytes");
    let check = |m: &B, r: &mut Rec| -> Res {
        r.nontrivial(m.len() > 1 && m.iter().any(|b| *b != m[0]));
        len_class(r, m.len(), 128);
        let d = no_panic("blake2b", || blake2b::blake2b(&seq(m)))?;
        let want = hex(&blake().hash(m));
        eq("blake2b-512 digest", out(d.iter()), want.clone())?;
        let d = no_panic("blake2", || blake2b::blake2::<U64>(&seq(m), blake2b::BlakeVariant::Blake2B))?;
        eq("generic blake2b digest", out(d.iter()), want)
    };
    ctx.factor(8);
    let mut far = FAR.to_vec();
    if ctx.thorough() {
        far.push((1 << 29) + 5);
    }
    ctx.exhaust("blake2b-far", far.into_iter(), |n: &usize, r: &mut Rec| {
        r.nontrivial(true);
        let m = content(*n, 1);
        let d = no_panic("blake2b", || blake2b::blake2b(&seq(&m)))?;
        eq("blake2b-512 digest", out(d.iter()), hex(&blake().hash(&m)))
    });
    ctx.run("blake2b", 10_000, 120_000, || bytes_of(blen(128, 5)), check);
    ctx.run("blake2b-long", 100, 2_000, || bytes_of(prop_oneof![600..5_000usize, 8_000..9_000usize, 65_400..65_700usize]), check);
    let n = if ctx.thorough() { 2049 } else { 641 };
    ctx.exhaust("blake2b-every-length", (0..n).map(|n| B(content(n, 7))), check);
}

fn main() {
    main_with(&[("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22)])
}
