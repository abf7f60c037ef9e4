//! Generators shared by the checks. All randomness comes from proptest.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// u128 serialised as a decimal string (serde_json numbers stop at u64 for most readers).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct W(pub u128);
impl std::fmt::Debug for W {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:#x}", self.0)
    }
}
impl Serialize for W {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:#x}", self.0))
    }
}
impl<'de> Deserialize<'de> for W {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        u128::from_str_radix(s.trim_start_matches("0x"), 16).map(W).map_err(serde::de::Error::custom)
    }
}

/// Bytes serialised as hex.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "x\"{}\"", hex(&self.0))
    }
}
impl std::ops::Deref for B {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    assert!(s.len() % 2 == 0);
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(B(unhex(&String::deserialize(d)?)))
    }
}

pub fn mask(bits: u32) -> u128 {
    if bits == 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}

/// Boundary-biased word of `bits` bits (raw two's complement pattern).
pub fn word(bits: u32) -> BoxedStrategy<W> {
    let m = mask(bits);
    prop_oneof![
        2 => Just(W(0)), 1 => Just(W(1)), 1 => Just(W(2)), 2 => Just(W(m)), 1 => Just(W(m - 1)),
        2 => Just(W(m >> 1)), 2 => Just(W((m >> 1) + 1)),
        3 => (0..bits).prop_map(move |k| W(1u128 << k)),
        3 => (0..bits).prop_map(move |k| W(m >> k)),
        3 => (0..bits).prop_map(move |k| W((m << k) & m)),
        2 => (0..bits, 0..3u128).prop_map(move |(k, d)| W((1u128 << k).wrapping_add(d).wrapping_sub(1) & m)),
        3 => (0..=bits.min(127), any::<u128>()).prop_map(move |(k, x)| W(x & mask(k.max(1)) & m)),
        // byte patterns: every byte 00, 7f, 80, ff or random
        3 => prop::collection::vec(prop_oneof![Just(0u8), Just(0x7f), Just(0x80), Just(0xff), any::<u8>()], 16)
            .prop_map(move |v| { let mut a = [0u8; 16]; a.copy_from_slice(&v); W(u128::from_le_bytes(a) & m) }),
        12 => any::<u128>().prop_map(move |x| W(x & m)),
    ]
    .boxed()
}

/// A pair of words; the second is often related to the first.
pub fn word2(bits: u32) -> BoxedStrategy<(W, W)> {
    let m = mask(bits);
    (word(bits), word(bits), 0..24u8, 0..bits)
        .prop_map(move |(a, b, rel, k)| {
            let b = match rel {
                0 => a,
                1 => W(a.0.wrapping_add(1) & m),
                2 => W(a.0.wrapping_sub(1) & m),
                3 => W(!a.0 & m),
                4 => W(a.0.wrapping_neg() & m),
                5 => W(a.0 ^ (1u128 << k)),
                6 => W((!a.0).wrapping_add(2) & m),
                7 => W(a.0 ^ (1u128 << (bits - 1))),
                _ => b,
            };
            (a, b)
        })
        .boxed()
}

/// Length biased around the multiples of `block` (up to `blocks` of them), and small lengths.
pub fn blen(block: usize, blocks: usize) -> BoxedStrategy<usize> {
    let max = block * blocks;
    prop_oneof![
        2 => 0..=(block + 1).min(max + 1),
        4 => (0..=blocks, -3i64..=3).prop_map(move |(k, d)| ((k * block) as i64 + d).max(0) as usize),
        2 => Just(block), 1 => Just(0usize),
        3 => 0..=max,
    ]
    .boxed()
}

/// Bytes of a length drawn from `len`: random, constant, runs, or sparse.
pub fn bytes_of(len: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<B> {
    len.prop_flat_map(bytes_n).boxed()
}

/// Exactly n bytes.
pub fn bytes_n(n: usize) -> BoxedStrategy<B> {
    prop_oneof![
        6 => prop::collection::vec(any::<u8>(), n).prop_map(B),
        1 => prop_oneof![Just(0u8), Just(0xffu8), Just(0x80), Just(1), any::<u8>()].prop_map(move |c| B(vec![c; n])),
        2 => prop::collection::vec(prop_oneof![3 => Just(0u8), 3 => Just(0xff), 1 => Just(0x80), 1 => Just(0x7f), 1 => Just(1), 2 => any::<u8>()], n).prop_map(B),
        // one distinguished byte in a constant background
        1 => (prop_oneof![Just(0u8), Just(0xffu8)], any::<prop::sample::Index>(), any::<u8>()).prop_map(move |(c, i, x)| {
            let mut v = vec![c; n];
            if n > 0 { let k = i.index(n); v[k] = x; }
            B(v)
        }),
        // a pattern repeated (equal blocks), with one byte changed now and then
        1 => (prop_oneof![Just(1usize), Just(3), Just(4), Just(8), Just(12), Just(16), Just(32), Just(64), Just(128), Just(168), 1..40usize], any::<u64>(), any::<prop::sample::Index>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(move |(p, mut z, i, x)| {
            let pat: Vec<u8> = (0..p).map(|_| { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (z >> 40) as u8 }).collect();
            let mut v: Vec<u8> = (0..n).map(|k| pat[k % p]).collect();
            if n > 0 { let k = i.index(n); v[k] ^= x; }
            B(v)
        }),
        // random with a constant-run inside
        1 => (prop::collection::vec(any::<u8>(), n), any::<prop::sample::Index>(), any::<prop::sample::Index>(), prop_oneof![Just(0u8), Just(0xff)]).prop_map(move |(mut v, i, j, c)| {
            if n > 0 {
                let (a, b) = (i.index(n), j.index(n + 1));
                let (a, b) = (a.min(b), a.max(b));
                for x in &mut v[a..b] { *x = c; }
            }
            B(v)
        }),
    ]
    .boxed()
}
