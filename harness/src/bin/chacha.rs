//! C23..C25: ChaCha20, Poly1305 and their AEAD against RFC 8439.
use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::{self as aead, chacha20 as cc, poly1305 as pl};
use num::{BigUint, One, Zero};
use vh::refs::chacha as rf;
use vh::*;

fn seq(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
fn out<'a>(it: impl Iterator<Item = &'a U8>) -> String {
    hex(&it.map(|x| x.declassify()).collect::<Vec<u8>>())
}
fn key(b: &[u8]) -> cc::Key {
    cc::Key::from_public_slice(b)
}
fn iv(b: &[u8]) -> cc::IV {
    cc::IV::from_public_slice(b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Quarter {
    s: Vec<u32>,
    abcd: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    k: B,
    ctr: u32,
    iv: B,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enc {
    k: B,
    iv: B,
    m: B,
}
fn w32() -> impl Strategy<Value = u32> {
    prop_oneof![4 => any::<u32>(), 1 => word(32).prop_map(|w| w.0 as u32)]
}
fn c23(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the key is not all one byte; for stream encryption the message is also non-empty");
    ctx.factor(6);
    ctx.run(
        "quarter-round",
        6_000,
        80_000,
        || {
            (prop::collection::vec(w32(), 16), Just((0..16u32).collect::<Vec<_>>()).prop_shuffle(), 0..3u8).prop_map(|(s, p, k)| Quarter {
                s,
                abcd: match k {
                    0 => [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15]][p[0] as usize % 4].to_vec(),
                    1 => [[0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]][p[0] as usize % 4].to_vec(),
                    _ => p[..4].to_vec(),
                },
            })
        },
        |c: &Quarter, r: &mut Rec| {
            r.nontrivial(c.s.iter().any(|x| *x != c.s[0]));
            let mut st = cc::State::new();
            for i in 0..16usize {
                st[i] = U32(c.s[i]);
            }
            let g = no_panic("quarter_round", || cc::quarter_round(c.abcd[0], c.abcd[1], c.abcd[2], c.abcd[3], st))?;
            let mut want = [0u32; 16];
            want.copy_from_slice(&c.s);
            rf::quarter(&mut want, c.abcd[0] as usize, c.abcd[1] as usize, c.abcd[2] as usize, c.abcd[3] as usize);
            eq("state", g.iter().map(|w| w.declassify()).collect::<Vec<_>>(), want.to_vec())
        },
    );
    ctx.run(
        "block",
        6_000,
        80_000,
        || (bytes_n(32), w32(), bytes_n(12)).prop_map(|(k, ctr, iv)| Block { k, ctr, iv }),
        |c: &Block, r: &mut Rec| {
            r.nontrivial(c.k.iter().any(|b| *b != c.k[0]));
            r.class_if(c.ctr == 0, "counter-0");
            r.class_if(c.ctr > u32::MAX / 2, "counter-high");
            let (k, n) = (key(&c.k), iv(&c.iv));
            let init = no_panic("block_init", || cc::block_init(k, U32(c.ctr), n))?;
            eq("initial state", init.iter().map(|w| w.declassify()).collect::<Vec<_>>(), rf::init(&c.k, c.ctr, &c.iv).to_vec())?;
            let inner = no_panic("block_inner", || cc::block_inner(k, U32(c.ctr), n))?;
            eq("block words", inner.iter().map(|w| w.declassify()).collect::<Vec<_>>(), rf::block_words(&c.k, c.ctr, &c.iv).to_vec())?;
            let b = no_panic("block", || cc::block(k, U32(c.ctr), n))?;
            eq("serialised block", out(b.iter()), hex(&rf::block(&c.k, c.ctr, &c.iv)))?;
            eq("state_to_bytes", out(cc::state_to_bytes(inner).iter()), hex(&rf::block(&c.k, c.ctr, &c.iv)))
        },
    );
    let enc = |c: &Enc, r: &mut Rec| -> Res {
        r.nontrivial(c.k.iter().any(|b| *b != c.k[0]) && !c.m.is_empty());
        r.class_if(c.m.is_empty(), "empty");
        r.class_if(c.m.len() % 64 == 0 && !c.m.is_empty(), "whole-blocks");
        r.class_if(c.m.len() > 64, "multi-block");
        r.class_if(c.m.len() > 64 * 255, "more-than-255-blocks");
        let (k, n) = (key(&c.k), iv(&c.iv));
        let ct = no_panic("chacha", || cc::chacha(k, n, &seq(&c.m)))?.map_err(|e| format!("chacha failed: {}", e))?;
        eq("ciphertext", out(ct.iter()), hex(&rf::xor_stream(&c.k, 1, &c.iv, &c.m)))?;
        let back = no_panic("chacha", || cc::chacha(k, n, &ct))?.map_err(|e| format!("chacha failed: {}", e))?;
        eq("decryption", out(back.iter()), hex(&c.m))
    };
    ctx.run("stream", 5_000, 60_000, || (bytes_n(32), bytes_n(12), bytes_of(blen(64, 6))).prop_map(|(k, iv, m)| Enc { k, iv, m }), enc);
    let n = if ctx.thorough() { 1100 } else { 400 };
    ctx.exhaust(
        "stream-every-length",
        (0..n).map(|l| Enc { k: B((0..32).map(|i| (i * 7 + l) as u8).collect()), iv: B((0..12).map(|i| (i * 31 + l) as u8).collect()), m: B((0..l).map(|i| (i * 3 + 1) as u8).collect()) }),
        enc,
    );
    ctx.factor(1);
    ctx.run("stream-long", 24, 300, || (bytes_n(32), bytes_n(12), bytes_of(16_200..33_000usize)).prop_map(|(k, iv, m)| Enc { k, iv, m }), enc);
    // the block counter passes 2^16
    ctx.exhaust(
        "stream-counter-16-bits",
        [65_540usize * 64 + 17].into_iter().map(|l| (l, 1u8)),
        |c: &(usize, u8), r: &mut Rec| {
            r.nontrivial(true);
            let k: Vec<u8> = (0..32).map(|i| i * 5 + c.1).collect();
            let m: Vec<u8> = (0..c.0).map(|i| (i * 3 + (i >> 9)) as u8).collect();
            let ct = no_panic("chacha", || cc::chacha(key(&k), iv(&k[..12]), &seq(&m)))?.map_err(|e| format!("chacha failed: {}", e))?;
            let got: Vec<u8> = ct.iter().map(|x| x.declassify()).collect();
            let want = rf::xor_stream(&k, 1, &k[..12], &m);
            match (0..want.len()).find(|&i| got.get(i) != Some(&want[i])) {
                None => eq("length", got.len(), want.len()),
                Some(i) => Err(format!("ciphertext differs at byte {}", i)),
            }
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mac {
    k: B,
    m: B,
}
/// A key and message whose final accumulator is the chosen value: r is invertible modulo the prime,
/// so the last block can be solved for when the solution is a 16-byte block.
fn steer(r: &[u8], prefix: &[u8], target: &BigUint) -> Option<Vec<u8>> {
    let p = (BigUint::one() << 130usize) - 5u32;
    let mut rc = r.to_vec();
    for i in [3, 7, 11, 15] {
        rc[i] &= 15;
    }
    for i in [4, 8, 12] {
        rc[i] &= 252;
    }
    let rr = BigUint::from_bytes_le(&rc);
    if rr.is_zero() {
        return None;
    }
    let mut acc = BigUint::zero();
    for c in prefix.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        acc = ((acc + BigUint::from_bytes_le(&b)) * &rr) % &p;
    }
    let inv = rr.modpow(&(&p - 2u32), &p);
    // (acc + block) * r = target
    let blk = (target * inv + &p - acc) % &p;
    let lo = BigUint::one() << 128usize;
    if blk < lo || blk >= &lo * 2u32 {
        return None;
    }
    let mut b = (blk - lo).to_bytes_le();
    b.resize(16, 0);
    let mut m = prefix.to_vec();
    m.extend(b);
    Some(m)
}
/// Position-dependent content for very long inputs.
fn far(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 167 + (i >> 8) * 59 + (i >> 16) * 101 + 1) as u8).collect()
}
fn c24(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the message is non-empty and the clamped multiplier r is not zero");
    ctx.factor(2);
    let mac = |c: &Mac, r: &mut Rec| -> Res {
        let rz = (0..16).all(|i| c.k[i] & (if [3, 7, 11, 15].contains(&i) { 15 } else if [4, 8, 12].contains(&i) { 252 } else { 255 }) == 0);
        r.nontrivial(!rz && !c.m.is_empty());
        r.class_if(c.m.is_empty(), "empty");
        r.class_if(c.m.len() % 16 == 0 && !c.m.is_empty(), "whole-blocks");
        r.class_if(c.m.len() % 16 != 0, "partial-last-block");
        r.class_if(c.m.len() > 16, "multi-block");
        let t = no_panic("poly", || pl::poly(&seq(&c.m), key(&c.k)))?;
        eq("tag", hex(&t.iter().copied().collect::<Vec<u8>>()), hex(&rf::poly1305(&c.m, &c.k)))
    };
    ctx.run("poly1305", 5_000, 60_000, || (bytes_n(32), bytes_of(blen(16, 8))).prop_map(|(k, m)| Mac { k, m }), mac);
    let n = if ctx.thorough() { 600 } else { 200 };
    ctx.exhaust(
        "poly1305-every-length",
        (0..n).map(|l| Mac { k: B((0..32).map(|i| (i * 37 + l * 11 + 5) as u8).collect()), m: B((0..l).map(|i| (i * 13 + 255 - l) as u8).collect()) }),
        mac,
    );
    // An accumulator (mostly the final one) next to the boundaries of the reduction, and s chosen to carry (or not).
    ctx.run(
        "poly1305-boundary",
        5_000,
        60_000,
        || {
            let p = (BigUint::one() << 130usize) - 5u32;
            let near = (0..6u8, -6i64..6).prop_map(move |(w, d)| {
                let base = match w {
                    0 => p.clone(),
                    1 => BigUint::one() << 128usize,
                    2 => BigUint::one() << 129usize,
                    3 => (BigUint::one() << 128usize) * 3u32,
                    4 => BigUint::from(6u32),
                    _ => (BigUint::one() << 127usize) + 8u32,
                };
                let v = if d < 0 { base - (-d) as u64 } else { base + d as u64 };
                v % &p
            });
            (bytes_n(16), bytes_n(16), bytes_of(prop_oneof![Just(0usize), Just(16), Just(32)]), near, 0..4u8, bytes_of(prop_oneof![3 => Just(0usize), 1 => 1..40usize]))
                .prop_map(|(r, s, pre, target, k, rest)| {
                    let s = match k {
                        0 => B(vec![0xff; 16]),
                        1 => B({ let mut v = vec![0xff; 16]; v[0] = 0xfa; v }),
                        2 => B({ let mut v = vec![0; 16]; v[0] = 6; v }),
                        _ => s,
                    };
                    (r, s, pre, target, rest)
                })
                .prop_filter_map("block out of range", |(r, s, pre, target, rest)| {
                    let mut r = r;
                    for bump in 0..64u8 {
                        r.0[0] = r.0[0].wrapping_add(bump);
                        if let Some(m) = steer(&r, &pre, &target) {
                            return Some(Mac { k: B([r.0, s.0].concat()), m: B([m, rest.0].concat()) });
                        }
                    }
                    None
                })
        },
        mac,
    );
    ctx.run(
        "poly1305-one-time-key",
        2_000,
        30_000,
        || (bytes_n(32), bytes_n(12), bytes_of(blen(16, 5))).prop_map(|(k, iv, m)| Enc { k, iv, m }),
        |c: &Enc, r: &mut Rec| {
            r.nontrivial(!c.m.is_empty());
            let t = no_panic("poly_mac", || pl::poly_mac(&seq(&c.m), key(&c.k), iv(&c.iv)))?;
            let otk = rf::block(&c.k, 0, &c.iv);
            eq("tag", hex(&t.iter().copied().collect::<Vec<u8>>()), hex(&rf::poly1305(&c.m, &otk[..32])))
        },
    );
    ctx.factor(1);
    // more than 2^16 blocks, and lengths past 2^20
    ctx.exhaust("poly1305-far", [(1usize << 20) - 1, (1 << 20) + 33, (1 << 21) + 16].into_iter(), |n: &usize, r: &mut Rec| {
        r.nontrivial(true);
        let k: Vec<u8> = (0..32).map(|i| (i * 37 + n % 251) as u8).collect();
        mac(&Mac { k: B(k), m: B(far(*n)) }, r)
    });
    ctx.run("poly1305-long", 32, 400, || (bytes_n(32), bytes_of(prop_oneof![2 => 250..300usize, 3 => 4_000..9_000usize, 2 => 65_500..66_600usize])).prop_map(|(k, m)| Mac { k, m }), mac);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Tag { at: usize, x: u8 },
    TagAll(B),
    Ct { at: usize, x: u8 },
    Aad { at: usize, x: u8 },
    Key { at: usize, x: u8 },
    Iv { at: usize, x: u8 },
    CtAppend(u8),
    AadAppend(u8),
    CtTruncate,
    AadTruncate,
    /// move one byte across the boundary between associated data and ciphertext
    Shift(bool),
    /// exchange two 16-byte blocks of the ciphertext
    SwapBlocks(usize, usize),
    /// xor the same value into two bytes of the tag (a comparison that folds bytes must not cancel)
    TagTwo { a: usize, b: usize, x: u8 },
    /// only the first (or the last) bytes of the tag are right
    TagPart { keep: usize, front: bool, fill: B },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aead {
    k: B,
    iv: B,
    aad: B,
    m: B,
    t: Tamper,
}
fn tamper() -> impl Strategy<Value = Tamper> {
    let x = || prop_oneof![1 => (0..8u32).prop_map(|k| 1u8 << k), 1 => 1..=255u8];
    prop_oneof![
        3 => (0..16usize, x()).prop_map(|(at, x)| Tamper::Tag { at, x }),
        1 => bytes_n(16).prop_map(Tamper::TagAll),
        2 => (0..16usize, 0..16usize, x()).prop_map(|(a, b, x)| Tamper::TagTwo { a, b, x }),
        2 => (0..16usize, any::<bool>(), bytes_n(16)).prop_map(|(keep, front, fill)| Tamper::TagPart { keep, front, fill }),
        3 => (any::<usize>(), x()).prop_map(|(at, x)| Tamper::Ct { at, x }),
        3 => (any::<usize>(), x()).prop_map(|(at, x)| Tamper::Aad { at, x }),
        1 => (0..32usize, x()).prop_map(|(at, x)| Tamper::Key { at, x }),
        1 => (0..12usize, x()).prop_map(|(at, x)| Tamper::Iv { at, x }),
        1 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Tamper::CtAppend),
        1 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Tamper::AadAppend),
        1 => Just(Tamper::CtTruncate), 1 => Just(Tamper::AadTruncate),
        1 => any::<bool>().prop_map(Tamper::Shift),
        1 => (0..8usize, 0..8usize).prop_map(|(a, b)| Tamper::SwapBlocks(a, b)),
    ]
}
fn flip(v: &[u8], at: usize, x: u8) -> Option<Vec<u8>> {
    if v.is_empty() {
        return None;
    }
    let mut v = v.to_vec();
    let n = v.len();
    v[at % n] ^= x;
    Some(v)
}
fn c25(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("message or associated data non-empty, and (for tampering) the presented tuple differs from the sealed one");
    ctx.factor(2);
    let gen = || {
        (bytes_n(32), bytes_n(12), bytes_of(prop_oneof![blen(16, 4), 0..40usize]), bytes_of(prop_oneof![blen(16, 5), blen(64, 3)]), tamper())
            .prop_map(|(k, iv, aad, m, t)| Aead { k, iv, aad, m, t })
    };
    let seal = |c: &Aead, r: &mut Rec| -> Res {
        r.nontrivial(!c.m.is_empty() || !c.aad.is_empty());
        r.class_if(c.m.is_empty(), "empty-message");
        r.class_if(c.aad.is_empty(), "empty-aad");
        r.class_if(c.aad.len() % 16 != 0, "aad-padded");
        r.class_if(c.m.len() % 16 != 0, "message-padded");
        r.class_if(c.m.len() > 64, "multi-block");
        let (ct, tag) = no_panic("encrypt", || aead::encrypt(key(&c.k), iv(&c.iv), &seq(&c.aad), &seq(&c.m)))?.map_err(|e| format!("encrypt failed: {}", e))?;
        let (wct, wtag) = rf::seal(&c.k, &c.iv, &c.aad, &c.m);
        eq("ciphertext", out(ct.iter()), hex(&wct))?;
        eq("tag", hex(&tag.iter().copied().collect::<Vec<u8>>()), hex(&wtag))?;
        let back = no_panic("decrypt", || aead::decrypt(key(&c.k), iv(&c.iv), &seq(&c.aad), &ct, tag))?;
        eq("decryption", back.map(|b| out(b.iter())), Ok(hex(&c.m)))
    };
    ctx.run("seal", 5_000, 60_000, gen, seal);
    // lengths whose encodings need a third byte, in either place
    ctx.exhaust("seal-far", [(70_000usize, 5usize), (5, 70_000), ((1 << 20) + 3, 0), (0, (1 << 20) + 3), (1 << 16, 1 << 17)].into_iter(), |(a, m): &(usize, usize), r: &mut Rec| {
        r.nontrivial(true);
        seal(&Aead { k: B((7..39).collect()), iv: B((1..13).collect()), aad: B(far(*a)), m: B(far(*m)), t: Tamper::CtTruncate }, r)
    });
    // lengths whose encodings need a second and a third byte
    let ll = || prop_oneof![2 => 0..20usize, 4 => 250..530usize, 2 => 8_180..8_210usize, 1 => 65_520..65_560usize];
    ctx.run("seal-long", 24, 300, move || (bytes_n(32), bytes_n(12), bytes_of(ll()), bytes_of(ll())).prop_map(|(k, iv, aad, m)| Aead { k, iv, aad, m, t: Tamper::CtTruncate }), seal);
    let n = if ctx.thorough() { 70 } else { 34 };
    ctx.exhaust(
        "seal-every-length-pair",
        (0..n).flat_map(move |a| (0..n).map(move |m| Aead { k: B(vec![(a * 3 + m) as u8; 32]), iv: B(vec![m as u8; 12]), aad: B((0..a).map(|i| i as u8 + 1).collect()), m: B((0..m).map(|i| 200 - i as u8).collect()), t: Tamper::CtTruncate })),
        seal,
    );
    let reject = |c: &Aead, r: &mut Rec| -> Res {
        let (ct, tag) = rf::seal(&c.k, &c.iv, &c.aad, &c.m);
        let (mut k2, mut iv2, mut aad2, mut ct2, mut tag2) = (c.k.0.clone(), c.iv.0.clone(), c.aad.0.clone(), ct.clone(), tag.clone());
        match &c.t {
            Tamper::Tag { at, x } => tag2[*at] ^= x,
            Tamper::TagAll(b) => tag2 = b.0.clone(),
            Tamper::TagTwo { a, b, x } => { tag2[*a] ^= x; tag2[*b] ^= x }
            Tamper::TagPart { keep, front, fill } => for i in 0..16 { if (i < *keep) != *front { tag2[i] = fill[i] } },
            Tamper::Ct { at, x } => ct2 = flip(&ct2, *at, *x).unwrap_or(ct2),
            Tamper::Aad { at, x } => aad2 = flip(&aad2, *at, *x).unwrap_or(aad2),
            Tamper::Key { at, x } => k2[*at] ^= x,
            Tamper::Iv { at, x } => iv2[*at] ^= x,
            Tamper::CtAppend(x) => ct2.push(*x),
            Tamper::AadAppend(x) => aad2.push(*x),
            Tamper::CtTruncate => { ct2.pop(); }
            Tamper::AadTruncate => { aad2.pop(); }
            Tamper::Shift(true) => if !ct2.is_empty() { let b = ct2.remove(0); aad2.push(b) },
            Tamper::Shift(false) => if let Some(b) = aad2.pop() { ct2.insert(0, b) },
            Tamper::SwapBlocks(a, b) => {
                let n = ct2.len() / 16;
                if n > 1 { let (a, b) = (a % n, b % n); for i in 0..16 { ct2.swap(a * 16 + i, b * 16 + i) } }
            }
        }
        let same = (&k2, &iv2, &aad2, &ct2, &tag2) == (&c.k.0, &c.iv.0, &c.aad.0, &ct, &tag);
        r.nontrivial(!same);
        r.class(format!("{:?}", c.t).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string());
        r.class_if(same, "unchanged");
        // the oracle: accepted exactly when the reference computes this tag
        let valid = rf::poly1305(&rf::aead_data(&aad2, &ct2), &rf::block(&k2, 0, &iv2)[..32]) == tag2;
        r.class_if(valid && !same, "still-valid");
        let t = pl::Tag::from_slice(&tag2);
        let g = no_panic("decrypt", || aead::decrypt(key(&k2), iv(&iv2), &seq(&aad2), &seq(&ct2), t))?;
        match (valid, g) {
            (false, Err(_)) => Ok(()),
            (false, Ok(p)) => Err(format!("decrypt accepted a forged input and returned {}", out(p.iter()))),
            (true, Err(e)) => Err(format!("decrypt rejected a genuine input: {}", e)),
            (true, Ok(p)) => eq("decryption", out(p.iter()), hex(&rf::xor_stream(&k2, 1, &iv2, &ct2))),
        }
    };
    ctx.run("tamper", 8_000, 100_000, gen, reject);
    ctx.run("tamper-long", 48, 600, move || (bytes_n(32), bytes_n(12), bytes_of(ll()), bytes_of(ll()), tamper()).prop_map(|(k, iv, aad, m, t)| Aead { k, iv, aad, m, t }), reject);
    // every single-bit change of one sealed tuple
    ctx.exhaust(
        "tamper-every-tag-bit",
        (0..128usize).map(|b| Aead { k: B((1..33).collect()), iv: B((1..13).collect()), aad: B(vec![1, 2, 3]), m: B(vec![9; 20]), t: Tamper::Tag { at: b / 8, x: 1 << (b % 8) } }),
        reject,
    );
}

fn main() {
    main_with(&[("C23", c23), ("C24", c24), ("C25", c25)])
}
