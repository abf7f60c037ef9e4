//! X25519 and P-256 by textbook affine group laws over BigInt (independent of any ladder formulas).
use crate::gen::{hex, unhex};
use num::{BigInt, Integer, One, Zero};

fn big(h: &str) -> BigInt {
    BigInt::parse_bytes(h.as_bytes(), 16).unwrap()
}
fn m(x: BigInt, p: &BigInt) -> BigInt {
    x.mod_floor(p)
}
fn inv(x: &BigInt, p: &BigInt) -> BigInt {
    let e = x.mod_floor(p).extended_gcd(p);
    assert!(e.gcd.is_one());
    e.x.mod_floor(p)
}
pub fn p25519() -> BigInt {
    (BigInt::one() << 255usize) - 19
}
fn legendre(x: &BigInt, p: &BigInt) -> bool {
    // true when x is a square
    let e: BigInt = (p - 1) >> 1usize;
    let r = x.mod_floor(p).modpow(&e, p);
    r.is_zero() || r.is_one()
}
/// Affine points on B*y^2 = x^3 + A*x^2 + x; None is the point at infinity.
type Pt = Option<(BigInt, BigInt)>;
fn mont_add(a: &Pt, b: &Pt, bb: &BigInt, aa: &BigInt, p: &BigInt) -> Pt {
    let (a, b) = match (a, b) {
        (None, _) => return b.clone(),
        (_, None) => return a.clone(),
        (Some(a), Some(b)) => (a, b),
    };
    let l = if a.0 == b.0 {
        if m(&a.1 + &b.1, p).is_zero() {
            return None;
        }
        m((3 * &a.0 * &a.0 + 2 * aa * &a.0 + 1) * inv(&(2 * bb * &a.1), p), p)
    } else {
        m((&b.1 - &a.1) * inv(&(&b.0 - &a.0), p), p)
    };
    let x = m(bb * &l * &l - aa - &a.0 - &b.0, p);
    let y = m(&l * (&a.0 - &x) - &a.1, p);
    Some((x, y))
}
pub fn sqrt25519(x: &BigInt) -> BigInt {
    let p = p25519();
    let e: BigInt = (&p + 3) >> 3usize;
    let r = x.modpow(&e, &p);
    if m(&r * &r - x, &p).is_zero() {
        return r;
    }
    let i = BigInt::from(2).modpow(&((&p - 1) >> 2usize), &p);
    let r = m(r * i, &p);
    assert!(m(&r * &r - x, &p).is_zero());
    r
}
pub fn clamp(k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}
/// The multiple k of a point with this u-coordinate; None is the point at infinity. Also tells whether
/// the point is on the curve (and not on its twist).
fn u_times(k: &BigInt, u: &BigInt) -> (Option<BigInt>, bool) {
    let p = p25519();
    let aa = BigInt::from(486662);
    let x = m(u.clone(), &p);
    let rhs = m(&x * &x * &x + &aa * &x * &x + &x, &p);
    // choose B so that (x, y) is a point: B=1 on the curve, B=2 (a non-square) on the twist
    let on = legendre(&rhs, &p);
    let bb = if on { BigInt::one() } else { BigInt::from(2) };
    let y = sqrt25519(&m(&rhs * inv(&bb, &p), &p));
    let mut acc: Pt = None;
    let base: Pt = Some((x, y));
    for i in (0..256u64).rev() {
        acc = mont_add(&acc, &acc, &bb, &aa, &p);
        if ((k >> i as usize) & BigInt::one()).is_one() {
            acc = mont_add(&acc, &base, &bb, &aa, &p);
        }
    }
    (acc.map(|a| a.0), on)
}
/// RFC 7748 X25519: u-coordinate of k*P on the curve or, when u is on the twist, on the twist.
/// The point at infinity encodes as 0.
pub fn x25519(k: &[u8], u: &[u8]) -> Vec<u8> {
    let k = BigInt::from_bytes_le(num::bigint::Sign::Plus, &clamp(k));
    let mut ub = u.to_vec();
    ub[31] &= 127;
    let x = u_times(&k, &BigInt::from_bytes_le(num::bigint::Sign::Plus, &ub)).0.unwrap_or_default();
    let mut out = x.to_bytes_le().1;
    out.resize(32, 0);
    out
}
/// The u-coordinate whose clamped multiple k is q, when q belongs to a point of prime order.
pub fn x25519_divide(k: &[u8], q: &BigInt) -> Option<BigInt> {
    let k = BigInt::from_bytes_le(num::bigint::Sign::Plus, &clamp(k));
    if *q >= p25519() {
        return None;
    }
    let main: BigInt = (BigInt::one() << 252usize) + "27742317777372353535851937790883648493".parse::<BigInt>().unwrap();
    let twist: BigInt = (BigInt::one() << 253usize) - "55484635554744707071703875581767296995".parse::<BigInt>().unwrap();
    for order in [main, twist] {
        if u_times(&order, q).0.is_none() && !q.is_zero() {
            return u_times(&inv(&k, &order), q).0;
        }
    }
    None
}

pub struct P256 {
    pub p: BigInt,
    pub n: BigInt,
    a: BigInt,
    pub b: BigInt,
    pub g: (BigInt, BigInt),
}
impl Default for P256 {
    fn default() -> Self {
        Self::new()
    }
}
impl P256 {
    pub fn new() -> Self {
        let p = big("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
        P256 {
            n: big("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            a: &p - 3,
            b: big("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            g: (
                big("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
                big("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            ),
            p,
        }
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let p = &self.p;
        let (a, b) = match (a, b) {
            (None, _) => return b.clone(),
            (_, None) => return a.clone(),
            (Some(a), Some(b)) => (a, b),
        };
        let l = if a.0 == b.0 {
            if m(&a.1 + &b.1, p).is_zero() {
                return None;
            }
            m((3 * &a.0 * &a.0 + &self.a) * inv(&(2 * &a.1), p), p)
        } else {
            m((&b.1 - &a.1) * inv(&(&b.0 - &a.0), p), p)
        };
        let x = m(&l * &l - &a.0 - &b.0, p);
        let y = m(&l * (&a.0 - &x) - &a.1, p);
        Some((x, y))
    }
    pub fn mul(&self, k: &BigInt) -> Pt {
        let g: Pt = Some(self.g.clone());
        let mut acc: Pt = None;
        for i in (0..k.bits()).rev() {
            acc = self.add(&acc, &acc);
            if ((k >> i as usize) & BigInt::one()).is_one() {
                acc = self.add(&acc, &g);
            }
        }
        acc
    }
    pub fn on_curve(&self, x: &BigInt, y: &BigInt) -> bool {
        m(y * y - x * x * x - &self.a * x - &self.b, &self.p).is_zero()
    }
}

pub fn selftest() {
    assert_eq!(
        hex(&x25519(
            &unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
            &unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
        )),
        "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"
    );
    assert_eq!(
        hex(&x25519(
            &unhex("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d"),
            &unhex("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493")
        )),
        "95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957"
    );
    let c = P256::new();
    assert!(c.on_curve(&c.g.0, &c.g.1));
    assert!(c.mul(&c.n).is_none());
    assert_eq!(
        c.mul(&BigInt::from(2)).unwrap().0,
        big("7cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc47669978")
    );
}
