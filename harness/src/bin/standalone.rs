//! C34: the stand-alone examples of the secret-integers crate compute what they say.
#![allow(dead_code, unused)]
use num::{BigUint, One, Zero};
use secret_integers::*;
use vh::refs::chacha as rf;
use vh::*;

#[path = "/repo/secret-integers/examples/chacha20.rs"]
mod stream;
#[path = "/repo/secret-integers/examples/dalek.rs"]
mod field;
use field::FieldElement64;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enc {
    k: B,
    ctr: u32,
    iv: B,
    m: B,
}
fn sec(b: &[u8]) -> Vec<U8> {
    b.iter().map(|x| U8::classify(*x)).collect()
}
fn out(b: &[U8]) -> String {
    hex(&b.iter().map(|x| x.declassify()).collect::<Vec<_>>())
}
fn want(c: &Enc) -> Vec<u8> {
    c.m.chunks(64)
        .enumerate()
        .flat_map(|(i, b)| {
            let ks = rf::block(&c.k, c.ctr.wrapping_add(i as u32), &c.iv);
            b.iter().zip(ks).map(|(x, y)| x ^ y).collect::<Vec<_>>()
        })
        .collect()
}
fn stream_case(c: &Enc, r: &mut Rec) -> Res {
    r.nontrivial(!c.m.is_empty());
    r.class_if(c.m.is_empty(), "empty");
    r.class_if(c.m.len() % 64 == 0 && !c.m.is_empty(), "whole-blocks");
    r.class_if(c.ctr as u64 + (c.m.len() as u64 + 63) / 64 > 1 << 32, "counter-wraps");
    let (k, n, m) = (sec(&c.k), sec(&c.iv), sec(&c.m));
    let e = no_panic("chacha20_encrypt", || stream::chacha20_encrypt(&k, U32::classify(c.ctr), &n, &m))?;
    eq("ciphertext", out(&e), hex(&want(c)))?;
    let d = no_panic("chacha20_decrypt", || stream::chacha20_decrypt(&k, U32::classify(c.ctr), &n, &e))?;
    eq("decryption", out(&d), hex(&c.m))?;
    eq("arguments", (out(&k), out(&n), out(&m)), (hex(&c.k), hex(&c.iv), hex(&c.m)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mul {
    a: Vec<u64>,
    b: Vec<u64>,
}
/// Limbs below 2^54, the stated precondition: reduced, at the edges, anything.
fn limb() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => 0..(1u64 << 51),
        3 => 0..(1u64 << 54),
        1 => Just(0u64),
        1 => (0..4u64).prop_map(|d| (1 << 51) - 1 - d),
        1 => (0..40u64).prop_map(|d| (1 << 51) + d - 20),
        2 => (0..4u64).prop_map(|d| (1 << 54) - 1 - d),
    ]
}
fn value(l: &[u64]) -> BigUint {
    l.iter().rev().fold(BigUint::zero(), |v, x| (v << 51usize) + BigUint::from(*x))
}

fn c34(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the message is not empty; the factors are neither zero nor one");
    ctx.run(
        "stream-cipher",
        20_000,
        300_000,
        || {
            (bytes_n(32), prop_oneof![Just(0u32), Just(1u32), any::<u32>(), (0..8u32).prop_map(|d| u32::MAX - d)], bytes_n(12), bytes_of(blen(64, 6).prop_map(|n| n.max(1))))
                .prop_map(|(k, ctr, iv, m)| Enc { k, ctr, iv, m })
        },
        stream_case,
    );
    ctx.exhaust(
        "stream-every-length",
        (1..if ctx.thorough() { 2000 } else { 520 }).map(|l| Enc {
            k: B((0..32).map(|i| (i * 7 + l) as u8).collect()),
            ctr: l as u32,
            iv: B((0..12).map(|i| (i * 31 + l) as u8).collect()),
            m: B((0..l).map(|i| (i * 3 + 1) as u8).collect()),
        }),
        stream_case,
    );
    // The empty message on its own: a known finding (see known_findings.json).
    ctx.exhaust("stream-empty", [Enc { k: B(vec![0; 32]), ctr: 1, iv: B(vec![0; 12]), m: B(vec![]) }].into_iter(), stream_case);
    ctx.run(
        "field-product",
        400_000,
        20_000_000,
        || (prop::collection::vec(limb(), 5), prop::collection::vec(limb(), 5)).prop_map(|(a, b)| Mul { a, b }),
        |c: &Mul, r: &mut Rec| {
            let p = (BigUint::one() << 255usize) - 19u32;
            let (x, y) = (value(&c.a), value(&c.b));
            r.nontrivial(x > BigUint::one() && y > BigUint::one());
            r.class_if(c.a.iter().chain(&c.b).all(|l| *l >= 1 << 53), "large-limbs");
            r.class_if(x >= p || y >= p, "unreduced");
            let mk = |l: &[u64]| {
                let mut f = [U64::classify(0u64); 5];
                for i in 0..5 {
                    f[i] = U64::classify(l[i]);
                }
                FieldElement64(f)
            };
            let (a, b) = (mk(&c.a), mk(&c.b));
            let g = no_panic("product", || &a * &b)?;
            let g: Vec<u64> = g.0.iter().map(|l| l.declassify()).collect();
            eq("product modulo 2^255 - 19", value(&g) % &p, (x * y) % &p)?;
            // the next product's precondition, with room to spare
            ensure(g.iter().all(|l| *l < 1 << 52), || format!("limbs of the product too large: {:?}", g))
        },
    );
}

fn main() {
    main_with(&[("C34", c34)]);
}
