//! Arbitrary-precision helpers: serialisable integers and boundary-biased generators.
use crate::*;
use num::{BigInt, BigUint, Integer as NI, One, Signed, Zero};
use proptest::strategy::BoxedStrategy;

/// BigInt serialised as a hexadecimal string.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Big(pub BigInt);
impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0.to_str_radix(16))
    }
}
impl Serialize for Big {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_str_radix(16))
    }
}
impl<'de> Deserialize<'de> for Big {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        BigInt::parse_bytes(s.as_bytes(), 16).map(Big).ok_or_else(|| serde::de::Error::custom("hex integer"))
    }
}

pub fn big(x: u128) -> BigInt {
    BigInt::from(x)
}
pub fn bighex(s: &str) -> BigInt {
    BigInt::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn pow2(k: usize) -> BigInt {
    BigInt::one() << k
}
pub fn modn(x: &BigInt, n: &BigInt) -> BigInt {
    x.mod_floor(n)
}
pub fn uint(x: &BigInt) -> BigUint {
    x.to_biguint().expect("non-negative")
}

/// Value in 0..=max, biased to 0, 1, max, powers of two, halves, roots and byte patterns.
pub fn upto(max: BigInt) -> BoxedStrategy<Big> {
    let bits = max.bits().max(1);
    let m = max.clone();
    let clampf = move |x: BigInt| -> Big {
        let n = &m + 1;
        Big(x.mod_floor(&n))
    };
    let (c1, c2, c3, c4, c5, c6) =
        (clampf.clone(), clampf.clone(), clampf.clone(), clampf.clone(), clampf.clone(), clampf.clone());
    let mx = max.clone();
    let mx2 = max.clone();
    let mx3 = max.clone();
    let bytes = (bits + 7) / 8;
    prop_oneof![
        2 => Just(Big(BigInt::zero())),
        1 => Just(c1(BigInt::one())),
        3 => (0..4u32).prop_map(move |d| c1(&mx - BigInt::from(d))),
        2 => (-2..=2i32).prop_map(move |d| c2((&mx2 >> 1usize) + d)),
        2 => (-2..=2i32).prop_map(move |d| c3(mx3.sqrt() + d)),
        4 => (0..bits, -1..=1i32).prop_map(move |(k, d)| c4(pow2(k) + d)),
        3 => (prop::collection::vec(prop_oneof![Just(0u8), Just(0x7f), Just(0x80), Just(0xff), any::<u8>()], bytes)).prop_map(move |v| c5(BigInt::from(BigUint::from_bytes_be(&v)))),
        8 => (prop::collection::vec(any::<u8>(), bytes)).prop_map(move |v| c6(BigInt::from(BigUint::from_bytes_be(&v)))),
        3 => (prop::collection::vec(any::<u8>(), bytes), 0..bits).prop_map(move |(v, k)| clampf(BigInt::from(BigUint::from_bytes_be(&v)) >> k)),
    ]
    .boxed()
}

/// Value in [-max, max] (or [0, max] when unsigned).
pub fn signed_upto(max: BigInt, signed: bool) -> BoxedStrategy<Big> {
    (upto(max), any::<bool>())
        .prop_map(move |(v, n)| if n && signed { Big(-v.0) } else { v })
        .boxed()
}

/// A pair in the range, the second often placed so that a+b, a-b or a*b lands on the bound.
pub fn pair(max: BigInt, signed: bool) -> BoxedStrategy<(Big, Big)> {
    let m = max.clone();
    (signed_upto(max.clone(), signed), signed_upto(max, signed), 0..14u8, -1..=2i32)
        .prop_map(move |(a, b, k, d)| {
            let lo = if signed { -m.clone() } else { BigInt::zero() };
            let clamp = |x: BigInt| -> Big { Big(if x > m { m.clone() } else if x < lo { lo.clone() } else { x }) };
            let b = match k {
                0 => clamp(&m - &a.0 + d),
                1 => clamp(&lo - &a.0 + d),
                2 => clamp(&a.0 + d),
                3 => clamp(-&a.0 + d),
                4 if !a.0.is_zero() => clamp(&m / &a.0 + d),
                5 if !a.0.is_zero() => clamp(&lo / &a.0 - d),
                6 => clamp(&a.0 - &m + d),
                _ => b,
            };
            (a, b)
        })
        .boxed()
}

/// Small deterministic trial division plus Fermat/Miller-Rabin with fixed bases: only used to
/// confirm that the moduli the harness calls prime are prime.
pub fn probably_prime(n: &BigInt) -> bool {
    let two = big(2);
    if *n < two {
        return false;
    }
    for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let p = BigInt::from(p);
        if *n == p {
            return true;
        }
        if (n % &p).is_zero() {
            return false;
        }
    }
    let one = BigInt::one();
    let nm1 = n - &one;
    let mut d = nm1.clone();
    let mut s = 0;
    while d.is_even() {
        d >>= 1usize;
        s += 1;
    }
    'base: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = BigInt::from(a).modpow(&d, n);
        if x == one || x == nm1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = (&x * &x) % n;
            if x == nm1 {
                continue 'base;
            }
        }
        return false;
    }
    true
}

pub fn is_neg(x: &BigInt) -> bool {
    x.is_negative()
}

/// The inverse of x modulo n in [0, n); zero for zero; None when x is not zero and has none.
pub fn inverse(x: &BigInt, n: &BigInt) -> Option<BigInt> {
    let x = modn(x, n);
    if x.is_zero() {
        return Some(x);
    }
    let g = x.extended_gcd(n);
    if g.gcd.is_one() { Some(modn(&g.x, n)) } else { None }
}
