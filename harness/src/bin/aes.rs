//! C26, C27: AES block cipher, counter mode, GHASH and GCM against the NIST definitions.
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::{self as gcm, aes, gf128};
use std::sync::OnceLock;
use vh::refs::aes as rf;
use vh::*;

fn seq(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
fn out<'a>(it: impl Iterator<Item = &'a U8>) -> String {
    hex(&it.map(|x| x.declassify()).collect::<Vec<u8>>())
}
fn r() -> &'static rf::Aes {
    static S: OnceLock<rf::Aes> = OnceLock::new();
    S.get_or_init(rf::Aes::new)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blk {
    k: B,
    m: B,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ctr {
    k: B,
    nonce: B,
    ctr: u32,
    m: B,
}
fn akey() -> impl Strategy<Value = B> {
    prop_oneof![bytes_n(16), bytes_n(32)]
}
/// Position-dependent content for very long inputs.
fn far(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 167 + (i >> 8) * 59 + (i >> 16) * 101 + 1) as u8).collect()
}
fn c26(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the key is not a single repeated byte; in counter mode the message is also non-empty");
    ctx.factor(4);
    ctx.run("block", 6_000, 80_000, || (akey(), bytes_n(16)).prop_map(|(k, m)| Blk { k, m }), |c: &Blk, rec: &mut Rec| {
        rec.nontrivial(c.k.iter().any(|b| *b != c.k[0]));
        rec.class(if c.k.len() == 16 { "aes-128" } else { "aes-256" });
        let b = aes::Block::from_public_slice(&c.m);
        let g = no_panic("encrypt_block", || {
            if c.k.len() == 16 {
                aes::aes128_encrypt_block(aes::Key128::from_public_slice(&c.k), b, 4, 10)
            } else {
                aes::aes256_encrypt_block(aes::Key256::from_public_slice(&c.k), b, 8, 14)
            }
        })?;
        eq("block", out(g.iter()), hex(&r().block(&c.k, &c.m)))
    });
    let ctr = |c: &Ctr, rec: &mut Rec| -> Res {
        rec.nontrivial(c.k.iter().any(|b| *b != c.k[0]) && !c.m.is_empty());
        rec.class(if c.k.len() == 16 { "aes-128" } else { "aes-256" });
        rec.class_if(c.m.is_empty(), "empty");
        rec.class_if(c.m.len() % 16 == 0 && !c.m.is_empty(), "whole-blocks");
        let blocks = (c.m.len() as u64 + 15) / 16;
        rec.class_if(blocks > 1, "multi-block");
        rec.class_if(c.ctr as u64 + blocks > 1 << 32, "counter-wraps");
        rec.class_if(blocks > 1 && (c.ctr & 0xff) as u64 + blocks > 0x100, "counter-byte-carry");
        let n = aes::Nonce::from_public_slice(&c.nonce);
        let m = seq(&c.m);
        let (e, d) = no_panic("counter mode", || {
            if c.k.len() == 16 {
                let k = aes::Key128::from_public_slice(&c.k);
                let e = aes::aes128_encrypt(k, n, U32(c.ctr), &m);
                let d = aes::aes128_decrypt(k, n, U32(c.ctr), &e);
                (e, d)
            } else {
                let k = aes::Key256::from_public_slice(&c.k);
                let e = aes::aes256_encrypt(k, n, U32(c.ctr), &m);
                let d = aes::aes256_decrypt(k, n, U32(c.ctr), &e);
                (e, d)
            }
        })?;
        eq("ciphertext", out(e.iter()), hex(&r().ctr(&c.k, &c.nonce, c.ctr, &c.m)))?;
        eq("decryption", out(d.iter()), hex(&c.m))
    };
    let cv = || {
        prop_oneof![
            3 => any::<u32>(), 2 => 0..4u32, 2 => (0..12u32).prop_map(|d| u32::MAX - d),
            1 => (prop_oneof![Just(8u32), Just(16), Just(24), Just(31)], 0..6u32).prop_map(|(k, d)| (1u32 << k).wrapping_sub(d)),
        ]
    };
    ctx.run("counter-mode", 4_000, 50_000, move || (akey(), bytes_n(12), cv(), bytes_of(blen(16, 8))).prop_map(|(k, nonce, ctr, m)| Ctr { k, nonce, ctr, m }), ctr);
    let top = if ctx.thorough() { 300 } else { 100 };
    ctx.exhaust(
        "counter-mode-every-length",
        (0..top).flat_map(|l| [16usize, 32].map(|kl| Ctr { k: B((0..kl).map(|i| (i * 7 + l) as u8).collect()), nonce: B((0..12).map(|i| (i + l) as u8).collect()), ctr: u32::MAX - 2, m: B((0..l).map(|i| (i * 5) as u8).collect()) })),
        ctr,
    );
    ctx.factor(1);
    // the counter moves by more than 2^16
    ctx.exhaust("counter-mode-far", [(65_540usize * 16 + 5, 16usize, 0u32), (65_540 * 16, 32, u32::MAX - 9), (65_540 * 16 + 1, 16, 0xfffe_fff0)].into_iter(), |(n, kl, c): &(usize, usize, u32), rec: &mut Rec| {
        ctr(&Ctr { k: B((0..*kl).map(|i| (i * 29) as u8).collect()), nonce: B((1..13).collect()), ctr: *c, m: B(far(*n)) }, rec)
    });
    ctx.run("counter-mode-long", 16, 200, || (akey(), bytes_n(12), any::<u32>(), bytes_of(4_100..9_000usize)).prop_map(|(k, nonce, ctr, m)| Ctr { k, nonce, ctr, m }), ctr);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gh {
    h: B,
    d: B,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Tag { at: usize, x: u8 },
    TagTwo { a: usize, b: usize, x: u8 },
    Ct { at: usize, x: u8 },
    Aad { at: usize, x: u8 },
    Key { at: usize, x: u8 },
    Iv { at: usize, x: u8 },
    CtAppend(u8),
    AadAppend(u8),
    CtTruncate,
    AadTruncate,
    Shift(bool),
    SwapBlocks(usize, usize),
    /// only the first (or the last) bytes of the tag are right
    TagPart { keep: usize, front: bool, fill: B },
}
fn tamper() -> impl Strategy<Value = Tamper> {
    let x = || prop_oneof![1 => (0..8u32).prop_map(|k| 1u8 << k), 1 => 1..=255u8];
    prop_oneof![
        3 => (0..16usize, x()).prop_map(|(at, x)| Tamper::Tag { at, x }),
        2 => (0..16usize, 0..16usize, x()).prop_map(|(a, b, x)| Tamper::TagTwo { a, b, x }),
        2 => (0..16usize, any::<bool>(), bytes_n(16)).prop_map(|(keep, front, fill)| Tamper::TagPart { keep, front, fill }),
        3 => (any::<usize>(), x()).prop_map(|(at, x)| Tamper::Ct { at, x }),
        3 => (any::<usize>(), x()).prop_map(|(at, x)| Tamper::Aad { at, x }),
        1 => (0..32usize, x()).prop_map(|(at, x)| Tamper::Key { at, x }),
        1 => (0..12usize, x()).prop_map(|(at, x)| Tamper::Iv { at, x }),
        1 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Tamper::CtAppend),
        1 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Tamper::AadAppend),
        1 => Just(Tamper::CtTruncate), 1 => Just(Tamper::AadTruncate),
        1 => any::<bool>().prop_map(Tamper::Shift),
        1 => (0..8usize, 0..8usize).prop_map(|(a, b)| Tamper::SwapBlocks(a, b)),
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aead {
    k: B,
    iv: B,
    aad: B,
    m: B,
    t: Tamper,
}
fn enc(c: &Aead) -> (ByteSeq, gf128::Tag) {
    let n = aes::Nonce::from_public_slice(&c.iv);
    if c.k.len() == 16 {
        gcm::encrypt_aes128(aes::Key128::from_public_slice(&c.k), n, &seq(&c.aad), &seq(&c.m))
    } else {
        gcm::encrypt_aes256(aes::Key256::from_public_slice(&c.k), n, &seq(&c.aad), &seq(&c.m))
    }
}
fn dec(k: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<String, String> {
    let n = aes::Nonce::from_public_slice(iv);
    let t = gf128::Tag::from_public_slice(tag);
    if k.len() == 16 {
        gcm::decrypt_aes128(aes::Key128::from_public_slice(k), n, &seq(aad), &seq(ct), t)
    } else {
        gcm::decrypt_aes256(aes::Key256::from_public_slice(k), n, &seq(aad), &seq(ct), t)
    }
    .map(|p| out(p.iter()))
}
fn c27(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("GHASH: non-zero key and data; GCM: message or associated data non-empty, and for tampering the presented tuple differs from the sealed one");
    ctx.factor(3);
    let gh = |c: &Gh, rec: &mut Rec| -> Res {
            rec.nontrivial(c.h.iter().any(|b| *b != 0) && c.d.iter().any(|b| *b != 0));
            rec.class_if(c.d.len() % 16 != 0, "partial-last-block");
            rec.class_if(c.d.is_empty(), "empty");
            rec.class_if(c.d.len() > 16, "multi-block");
            let t = no_panic("gmac", || gf128::gmac(&seq(&c.d), gf128::Key::from_public_slice(&c.h)))?;
            eq("ghash", out(t.iter()), hex(&rf::ghash(&c.h, &c.d)))
    };
    ctx.run("ghash", 4_000, 50_000, || (bytes_n(16), bytes_of(blen(16, 6))).prop_map(|(h, d)| Gh { h, d }), gh);
    // more than 2^16 blocks
    ctx.exhaust("ghash-far", [(1usize << 20) - 1, (1 << 20) + 33].into_iter(), |n: &usize, rec: &mut Rec| {
        gh(&Gh { h: B((3..19).collect()), d: B(far(*n)) }, rec)
    });
    ctx.run("ghash-long", 32, 400, || (bytes_n(16), bytes_of(prop_oneof![250..300usize, 4_000..9_000usize, 65_500..66_600usize])).prop_map(|(h, d)| Gh { h, d }), gh);
    // what is multiplied at each step is drawn (zero, one bit, the key itself), the data computed from it
    ctx.run(
        "ghash-steered",
        3_000,
        40_000,
        || {
            let t = prop_oneof![2 => Just(None), 2 => (0..128usize).prop_map(|i| { let mut v = vec![0; 16]; v[i / 8] = 0x80 >> (i % 8); Some(B(v)) }), 3 => bytes_n(16).prop_map(Some), 1 => Just(Some(B(vec![0; 16])))];
            (bytes_n(16), prop::collection::vec(t, 1..6)).prop_map(|(h, ts)| {
                let mut d: Vec<u8> = vec![];
                for t in ts {
                    let acc = rf::ghash(&h, &d);
                    let t = t.unwrap_or_else(|| h.clone());
                    d.extend(acc.iter().zip(t.iter()).map(|(a, b)| a ^ b));
                }
                Gh { h, d: B(d) }
            })
        },
        gh,
    );
    // all products of single-bit elements: the reduction table of the field, completely
    ctx.exhaust(
        "ghash-every-bit-product",
        (0..128usize).flat_map(|i| (0..128usize).map(move |j| (i, j))),
        |c: &(usize, usize), rec: &mut Rec| {
            rec.nontrivial(true);
            let one = |i: usize| { let mut v = vec![0u8; 16]; v[i / 8] = 0x80 >> (i % 8); v };
            let (h, d) = (one(c.0), one(c.1));
            let t = no_panic("gmac", || gf128::gmac(&seq(&d), gf128::Key::from_public_slice(&h)))?;
            eq("product", out(t.iter()), hex(&rf::ghash(&h, &d)))
        },
    );
    let gen = || {
        (akey(), bytes_n(12), bytes_of(prop_oneof![blen(16, 4), 0..40usize]), bytes_of(blen(16, 6)), tamper()).prop_map(|(k, iv, aad, m, t)| Aead { k, iv, aad, m, t })
    };
    let seal = |c: &Aead, rec: &mut Rec| -> Res {
        rec.nontrivial(!c.m.is_empty() || !c.aad.is_empty());
        rec.class(if c.k.len() == 16 { "aes-128" } else { "aes-256" });
        rec.class_if(c.m.is_empty(), "empty-message");
        rec.class_if(c.aad.is_empty(), "empty-aad");
        rec.class_if(c.aad.len() % 16 != 0, "aad-padded");
        rec.class_if(c.m.len() % 16 != 0, "message-padded");
        let (ct, tag) = no_panic("encrypt", || enc(c))?;
        let (wct, wtag) = r().gcm(&c.k, &c.iv, &c.aad, &c.m);
        eq("ciphertext", out(ct.iter()), hex(&wct))?;
        eq("tag", out(tag.iter()), hex(&wtag))?;
        eq("decryption", no_panic("decrypt", || dec(&c.k, &c.iv, &c.aad, &wct, &wtag))?, Ok(hex(&c.m)))
    };
    ctx.run("seal", 3_000, 40_000, gen, seal);
    // lengths whose encodings need a third byte, in either place
    ctx.exhaust("seal-far", [(70_000usize, 5usize), (5, 70_000), ((1 << 20) + 3, 0), (0, (1 << 20) + 3)].into_iter(), |(a, m): &(usize, usize), rec: &mut Rec| {
        seal(&Aead { k: B((7..if *a > *m { 23 } else { 39 }).collect()), iv: B((1..13).collect()), aad: B(far(*a)), m: B(far(*m)), t: Tamper::CtTruncate }, rec)
    });
    // lengths whose encodings need a second and a third byte
    let ll = || prop_oneof![2 => 0..20usize, 4 => 250..530usize, 2 => 8_180..8_210usize, 1 => 65_520..65_560usize];
    ctx.run("seal-long", 48, 600, move || (akey(), bytes_n(12), bytes_of(ll()), bytes_of(ll())).prop_map(|(k, iv, aad, m)| Aead { k, iv, aad, m, t: Tamper::CtTruncate }), seal);
    let n = if ctx.thorough() { 50 } else { 20 };
    ctx.exhaust(
        "seal-every-length-pair",
        (0..n).flat_map(move |a| (0..n).map(move |m| Aead { k: B(vec![(a * 3 + m) as u8; if m % 2 == 0 { 16 } else { 32 }]), iv: B(vec![m as u8; 12]), aad: B((0..a).map(|i| i as u8 + 1).collect()), m: B((0..m).map(|i| 200 - i as u8).collect()), t: Tamper::CtTruncate })),
        seal,
    );
    let reject = |c: &Aead, rec: &mut Rec| -> Res {
        let (ct, tag) = r().gcm(&c.k, &c.iv, &c.aad, &c.m);
        let (mut k2, mut iv2, mut aad2, mut ct2, mut tag2) = (c.k.0.clone(), c.iv.0.clone(), c.aad.0.clone(), ct.clone(), tag.clone());
        match &c.t {
            Tamper::Tag { at, x } => tag2[*at] ^= x,
            Tamper::TagTwo { a, b, x } => { tag2[*a] ^= x; tag2[*b] ^= x }
            Tamper::TagPart { keep, front, fill } => for i in 0..16 { if (i < *keep) != *front { tag2[i] = fill[i] } },
            Tamper::Ct { at, x } => if !ct2.is_empty() { let n = ct2.len(); ct2[at % n] ^= x },
            Tamper::Aad { at, x } => if !aad2.is_empty() { let n = aad2.len(); aad2[at % n] ^= x },
            Tamper::Key { at, x } => { let n = k2.len(); k2[at % n] ^= x }
            Tamper::Iv { at, x } => iv2[*at] ^= x,
            Tamper::CtAppend(x) => ct2.push(*x),
            Tamper::AadAppend(x) => aad2.push(*x),
            Tamper::CtTruncate => { ct2.pop(); }
            Tamper::AadTruncate => { aad2.pop(); }
            Tamper::Shift(true) => if !ct2.is_empty() { let b = ct2.remove(0); aad2.push(b) },
            Tamper::Shift(false) => if let Some(b) = aad2.pop() { ct2.insert(0, b) },
            Tamper::SwapBlocks(a, b) => {
                let n = ct2.len() / 16;
                if n > 1 { let (a, b) = (a % n, b % n); for i in 0..16 { ct2.swap(a * 16 + i, b * 16 + i) } }
            }
        }
        let same = (&k2, &iv2, &aad2, &ct2, &tag2) == (&c.k.0, &c.iv.0, &c.aad.0, &ct, &tag);
        rec.nontrivial(!same);
        rec.class(format!("{:?}", c.t).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string());
        let s = rf::ghash(&r().block(&k2, &[0; 16]), &rf::gcm_data(&aad2, &ct2));
        let valid = r().ctr(&k2, &iv2, 1, &s) == tag2;
        let g = no_panic("decrypt", || dec(&k2, &iv2, &aad2, &ct2, &tag2))?;
        match (valid, g) {
            (false, Err(_)) => Ok(()),
            (false, Ok(p)) => Err(format!("decrypt accepted a forged input and returned {}", p)),
            (true, Err(e)) => Err(format!("decrypt rejected a genuine input: {}", e)),
            (true, Ok(p)) => eq("decryption", p, hex(&r().ctr(&k2, &iv2, 2, &ct2))),
        }
    };
    ctx.run("tamper", 4_000, 50_000, gen, reject);
    ctx.run("tamper-long", 48, 600, move || (akey(), bytes_n(12), bytes_of(ll()), bytes_of(ll()), tamper()).prop_map(|(k, iv, aad, m, t)| Aead { k, iv, aad, m, t }), reject);
    ctx.exhaust(
        "tamper-every-tag-bit",
        (0..128usize).map(|b| Aead { k: B((1..17).collect()), iv: B((1..13).collect()), aad: B(vec![1, 2, 3]), m: B(vec![9; 20]), t: Tamper::Tag { at: b / 8, x: 1 << (b % 8) } }),
        reject,
    );
}

fn main() {
    main_with(&[("C26", c26), ("C27", c27)])
}
