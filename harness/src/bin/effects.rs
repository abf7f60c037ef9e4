//! C31: operations have no side effects: nothing on the standard streams, arguments as they were,
//! the same result again.
use hacspec::prelude::*;
use hacspec::*;
use hacspec_examples::aes_gcm::{self as gcm, aes, gf128};
use hacspec_examples::chacha20_poly1305::{self as aead, chacha20 as cc, poly1305 as pl};
use hacspec_examples::{blake2::blake2b, curve25519 as x, fips202, hkdf, hmac, p256, sha2};
use hacspec_dev::*;
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::Mutex;
use vh::*;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

nat_mod!(SecF, SecFCanvas, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
public_nat_mod!(PubF, PubFCanvas, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
unsigned_integer!(BigU, 512);
signed_public_integer!(BigI, 256);
array!(W8, 8, U32);
bytes!(B16, 16);
array!(P8, 8, u32);
poly!(Pq, i64, 7, 3329, [(0, 1i64), (6, 1i64)]);

hacspec_dev::create_test_vectors!(Vector, a: u64, b: String);

/// What an operation did: its printable result and whether an argument changed.
type Out = (String, bool);
/// Deterministic bytes drawn from the case: position `o`, length `n`.
fn at(d: &[u8], o: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| if d.is_empty() { (o + i) as u8 } else { d[(o + i) % d.len()] ^ ((o + i) / d.len()) as u8 }).collect()
}
fn w(d: &[u8], o: usize) -> u64 {
    let b = at(d, o * 8, 8);
    let mut x = [0u8; 8];
    x.copy_from_slice(&b);
    u64::from_le_bytes(x)
}
fn seq(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
fn out<'a>(it: impl Iterator<Item = &'a U8>) -> String {
    hex(&it.map(|x| x.declassify()).collect::<Vec<u8>>())
}
/// Runs `f` on borrowed byte sequences and tells whether any of them changed.
fn with(args: &[&[u8]], f: impl FnOnce(&[ByteSeq]) -> String) -> Out {
    let v: Vec<ByteSeq> = args.iter().map(|a| seq(a)).collect();
    let r = f(&v);
    let same = v.iter().zip(args).all(|(s, a)| out(s.iter()) == hex(a));
    (r, same)
}
fn fe(d: &[u8], o: usize) -> PubF {
    PubF::from_byte_seq_le(seq(&at(d, o, 31)))
}
fn pq(d: &[u8], o: usize) -> Pq {
    Pq::from_vec((0..7).map(|i| (w(d, o + i) % 3329) as i64).collect())
}

const OPS: &[(&str, fn(&[u8]) -> Out)] = &[
    ("secret arithmetic", |d| {
        let (a, b) = (U64::classify(w(d, 0)), U64::classify(w(d, 1)));
        let (a0, b0) = (a.declassify(), b.declassify());
        let mut c = a;
        c += b;
        c *= a;
        c ^= b;
        c -= a;
        c <<= 3;
        let r = format!("{} {} {} {} {} {} {} {:x}", a + b, a - b, a * b, a & b, a | b, !a, a >> 5, c);
        (r, a.declassify() == a0 && b.declassify() == b0)
    }),
    ("secret signed arithmetic", |d| {
        let (a, b) = (I64::classify(w(d, 0) as i64), I64::classify(w(d, 1) as i64));
        (format!("{} {} {} {} {}", a + b, a - b, a * b, a ^ b, a >> 3), true)
    }),
    ("secret comparisons", |d| {
        let (a, b) = (U32::classify(w(d, 0) as u32), U32::classify(w(d, 1) as u32));
        (
            format!(
                "{} {} {} {} {} {}",
                a.comp_eq(b), a.comp_ne(b), a.comp_gt(b), a.comp_gte(b), a.comp_lt(b), a.comp_lte(b)
            ),
            true,
        )
    }),
    ("secret 128-bit", |d| {
        let (a, b) = (U128::classify(w(d, 0) as u128 * w(d, 2) as u128), U128::classify(w(d, 1) as u128));
        (format!("{} {} {} {}", a + b, a * b, a.comp_gte(b), a.rotate_left(77)), true)
    }),
    ("secret byte conversions", |d| {
        let v: Vec<U32> = (0..4).map(|i| U32::classify(w(d, i) as u32)).collect();
        let b = U32::to_be_bytes(&v);
        let l = U32::to_le_bytes(&v);
        let r = format!("{} {} {:?} {:?}", out(b.iter()), out(l.iter()), U32::from_be_bytes(&l), U32::from_le_bytes(&b));
        (r, v.iter().enumerate().all(|(i, x)| x.declassify() == w(d, i) as u32))
    }),
    ("secret casts", |d| {
        let a = U64::classify(w(d, 0));
        (format!("{} {} {} {}", U8::from(a), U32::from(a), I64::from(a), U128::from(a)), true)
    }),
    ("Integer methods, secret", |d| {
        let (a, b) = (U32::classify(w(d, 0) as u32), U32::classify(w(d, 1) as u32));
        (
            format!(
                "{:?}",
                (
                    a.get_bit(5), a.set_bit(U32::classify(1u32), 9), a.set(3, b, 4), a.wrap_add(b), a.wrap_sub(b), a.wrap_mul(b),
                    a.equal(b), a.greater_than(b), a.less_than_or_equal(b), a.not_equal_bm(b), a.greater_than_bm(b), a.less_than_bm(b)
                )
            ),
            true,
        )
    }),
    ("Integer methods, public", |d| {
        let (a, b) = (w(d, 0) as u32, w(d, 1) as u32);
        (
            format!("{:?}", (a.get_bit(5), a.set(3, b, 4), a.wrap_add(b), a.equal_bm(b), a.greater_than_or_qual_bm(b), a.modulo(b | 1), a.sub_mod(b, 65537))),
            true,
        )
    }),
    ("modular machine arithmetic", |d| {
        let (a, b, n) = ((w(d, 0) % 40000) as i64, (w(d, 1) % 40000) as i64, 40009i64);
        (format!("{:?}", (a.add_mod(b, n), a.sub_mod(b, n), a.mul_mod(b, n), ((a + 1) as i64).inv(n), a.pow(3), (a - b).abs())), true)
    }),
    ("masked selection", |d| {
        let (a, b) = (U64::classify(w(d, 0)), U64::classify(w(d, 1)));
        let m = a.greater_than_bm(b);
        (
            format!("{:?}", (cswap(a, b, m), cswap_bit(a, b, U64::classify(w(d, 2) & 1)), cadd(a, b, m), csub(a, b, m), cmul(a, b, m), cset_bit(a, U64::one(), 7, m))),
            true,
        )
    }),
    ("constant-time division", |d| {
        let (a, b) = (U32::classify(w(d, 0) as u32), U32::classify(w(d, 1) as u32 | 1));
        (format!("{:?} {:?}", ct_div(a, b), ct_div(w(d, 0), w(d, 1) | 1)), true)
    }),
    ("bounded secret integer", |d| {
        let (a, b) = (BigU::from_literal(w(d, 0) as u128), BigU::from_literal(w(d, 1) as u128));
        (format!("{:?} {:?} {:?} {}", a * b, a + b, (a + b).wrap_sub(a), BigU::from_hex("1f") + a), true)
    }),
    ("bounded public integer", |d| {
        let (a, b) = (BigI::from_literal(w(d, 0) as u128), BigI::from_literal(w(d, 1) as u128 | 1));
        (format!("{:?}", (a * b, a - b, a / b, a % b, a == b, a.wrap_add(b), a < b)), true)
    }),
    ("secret field", |d| {
        let a = SecF::from_le_bytes(&at(d, 0, 31));
        let b = SecF::from_le_bytes(&at(d, 40, 31));
        (format!("{:?}", (a + b, a - b, a * b, a.wrap_add(b), SecF::default())), true)
    }),
    ("public field", |d| {
        let (a, b) = (fe(d, 0), fe(d, 40));
        (format!("{:?}", (a + b, a - b, a * b, a.pow(5), a < b, a == b)), true)
    }),
    ("field inversion", |d| {
        let a = fe(d, 0) + PubF::from_literal(1);
        (format!("{:?}", a.inv()), true)
    }),
    ("field bytes", |d| {
        let a = fe(d, 0);
        (format!("{} {:?}", out(a.to_byte_seq_le().iter()), a.to_public_byte_seq_le().iter().collect::<Vec<_>>()), true)
    }),
    ("array construction", |d| {
        let b = at(d, 0, 16);
        with(&[&b], |s| {
            let a = B16::from_seq(&s[0]);
            let c = B16::from_slice(&s[0][0..11]);
            let e = B16::from_sub(&s[0], 0, 16);
            format!("{} {} {} {:?} {}", out(a.iter()), out(c.iter()), out(e.iter()), a, B16::from_hex(&hex(&b)).declassify_eq(&a))
        })
    }),
    ("array elementwise", |d| {
        let b = at(d, 0, 32);
        let (mut p, mut q) = (W8::new(), W8::new());
        for i in 0..8usize {
            p[i] = U32::classify(w(d, i) as u32);
            q[i] = U32::classify(w(d, i + 8) as u32);
        }
        let before = (format!("{:?}", p), format!("{:?}", q));
        let r = format!("{:?} {:?} {:?} {:?} {:?} {}", p + q, p - q, p * q, p ^ q, p.len(), b.len());
        (r, before == (format!("{:?}", p), format!("{:?}", q)))
    }),
    ("public array elementwise", |d| {
        let mut p = P8::new();
        for i in 0..8usize {
            p[i] = w(d, i) as u32 >> 1;
        }
        (format!("{:?} {:?} {:?} {}", p + p, p ^ p, p * P8::new(), p == p), true)
    }),
    ("array to words and hex", |d| {
        let b = at(d, 0, 16);
        let a = B16::from_public_slice(&b);
        let r = format!("{:?} {:?} {:?} {} {:?}", a.to_be_U32s(), a.to_le_U64s(), a.to_U128s_be(), a.to_hex(), a.to_be_bytes());
        (r, out(a.iter()) == hex(&b))
    }),
    ("array slicing and updates", |d| {
        let b = at(d, 0, 16);
        let s = at(d, 20, 30);
        with(&[&s], |v| {
            let a = B16::from_public_slice(&b);
            let u = a.update(2, &v[0].sub(0, 5)).update_sub(1, &v[0], 7, 9).update_start(&v[0].subr(1..4));
            let k = u.set_chunk(5, 1, &v[0].sub(3, 5));
            let (n, c) = k.get_chunk(5, 3);
            format!("{} {} {} {} {} {}", out(a.iter()), out(u.iter()), out(k.iter()), n, out(c.iter()), a.num_chunks(5))
        })
    }),
    ("sequence slicing and updates", |d| {
        let a = at(d, 0, 41);
        let b = at(d, 50, 23);
        with(&[&a, &b], |v| {
            let u = v[0].clone().update(3, &v[1]).update_sub(30, &v[1], 2, 8).update_start(&v[1].subr(5..7));
            let k = u.clone().set_chunk(16, 2, &v[1].sub(0, 9));
            let (n, c) = v[0].get_chunk(7, 5);
            format!("{} {} {} {} {}", out(u.iter()), out(k.iter()), n, out(c.iter()), out(ByteSeq::from_sub_range(&v[0], 3..9).iter()))
        })
    }),
    ("sequence hex and strings", |d| {
        let a = at(d, 0, 19);
        with(&[&a], |v| {
            let h = v[0].to_hex();
            format!("{} {} {}", h, ByteSeq::from_hex(&h) == v[0], ByteSeq::from_string(h.clone()).to_hex())
        })
    }),
    ("public sequence arithmetic", |d| {
        let a = PublicSeq::<u32>::from_vec((0..6).map(|i| w(d, i) as u32 >> 9).collect());
        let b = PublicSeq::<u32>::from_vec((0..6).map(|i| w(d, i + 6) as u32 >> 9).collect());
        let r = format!("{:?} {:?} {:?}", a.clone() + b.clone(), a.clone() ^ b.clone(), a.clone() - a.clone());
        (r, (0..6).all(|i| a[i as usize] == w(d, i) as u32 >> 9 && b[i as usize] == w(d, i + 6) as u32 >> 9))
    }),
    ("polynomial slices", |d| {
        let a: Vec<i64> = (0..6).map(|i| (w(d, i) % 3329) as i64).collect();
        let mut b: Vec<i64> = (0..4).map(|i| (w(d, i + 6) % 3329) as i64).collect();
        b[3] |= 1;
        let (a0, b0) = (a.clone(), b.clone());
        let r = format!("{:?} {:?} {:?} {:?} {:?}", poly_add(&a, &b, 3329), poly_sub(&a, &b, 3329), poly_mul(&a, &b, 3329), poly_div(&a, &b, 3329), leading_coefficient(&a));
        (r, a == a0 && b == b0)
    }),
    ("polynomial inversion", |d| {
        let a: Vec<i64> = (0..5).map(|i| (w(d, i) % 3) as i64).collect();
        let m: Vec<i64> = vec![2, 2, 0, 0, 0, 1];
        let r = format!("{:?}", extended_euclid(&a, &m, 3));
        (r, true)
    }),
    ("polynomials, any modulus", |d| {
        let n = [3i64, 5, 7, 13, 251, 3329, 12289][(w(d, 3) % 7) as usize];
        let a: Vec<i64> = (0..5).map(|i| (at(d, i, 1)[0] % 3) as i64).collect();
        let mut m: Vec<i64> = (0..5).map(|i| (at(d, i + 40, 1)[0] % 3) as i64).collect();
        m.push(1);
        let r = format!("{:?} {:?} {:?} {:?}", poly_mul(&a, &m, n), poly_div(&m, &[1 + a[1], 2], n), extended_euclid(&a, &m, n), poly_sub(&a, &m, n));
        (r, true)
    }),
    ("machine integers, any modulus", |d| {
        let (a, b, n) = ((w(d, 0) % 30000) as i64, (w(d, 1) % 30000) as i64, [30011i64, 30013, 32003, 40009, 65537, 2147483647][at(d, 24, 1)[0] as usize % 6]);
        let (p, q) = (u64::from(at(d, 32, 1)[0]) + 2, 1000 + w(d, 1) % 1000);
        (format!("{:?}", (a.add_mod(b, n), a.sub_mod(b, n), a.mul_mod(b, n), ((a + 1) as i64).inv(n), p.pow(at(d, 40, 1)[0] as u32 % 7), q.sub_mod(p, 65537), q.modulo(p), caught(|| p.inv(q)))), true)
    }),
    ("powers of field elements", |d| {
        let (a, b) = (fe(d, 0), fe(d, 32));
        let u = BigU::from_literal(w(d, 1) as u128);
        (format!("{:?}", (a.pow(w(d, 4) as u128), a.pow_felem(b), (b + PubF::from_literal(1)).inv(), u, BigI::from_literal(w(d, 1) as u128).pow(at(d, 8, 1)[0] as u128, BigI::from_literal(w(d, 5) as u128 | 1)))), true)
    }),
    ("chunks of any size", |d| {
        let size = 1 + at(d, 32, 1)[0] as usize % 90;
        with(&[d], |v| {
            let n = v[0].num_chunks(size);
            let k = if n == 0 { 0 } else { at(d, 40, 1)[0] as usize % n };
            let c = v[0].get_chunk(size, k);
            format!("{} {} {} {}", n, c.0, out(c.1.iter()), out(v[0].clone().set_chunk(size, k, &c.1).iter()))
        })
    }),
    ("slices anywhere", |d| {
        let (o, n) = (at(d, 32, 1)[0] as usize % 40, at(d, 33, 1)[0] as usize % 20);
        with(&[&at(d, 0, 64)], |v| format!("{} {} {}", out(v[0].sub(o, n).iter()), out(B16::from_sub(&v[0], o, n % 16).iter()), out(v[0].clone().update_sub(o, &v[0], n, o / 2).iter())))
    }),
    ("polynomial ring", |d| {
        let (a, b) = (pq(d, 0), pq(d, 9));
        (format!("{:?} {:?} {:?}", a.clone() + b.clone(), a.clone() - b.clone(), a * b), true)
    }),
    ("sha-256", |d| with(&[d], |v| out(sha2::hash(&v[0]).iter()))),
    ("sha-3", |d| {
        with(&[d], |v| {
            format!(
                "{} {} {} {}",
                out(fips202::sha3224(&v[0]).iter()), out(fips202::sha3256(&v[0]).iter()), out(fips202::sha3384(&v[0]).iter()), out(fips202::sha3512(&v[0]).iter())
            )
        })
    }),
    ("shake", |d| {
        let n = d.len() * 3 / 2;
        with(&[d], |v| format!("{} {}", out(fips202::shake128(&v[0], n).iter()), out(fips202::shake256(&v[0], n).iter())))
    }),
    ("blake2b", |d| with(&[d], |v| out(blake2b::blake2b(&v[0]).iter()))),
    ("hmac", |d| with(&[&at(d, 1, d.len() / 2 + 40), d], |v| out(hmac::hmac(&v[0], &v[1]).iter()))),
    ("hkdf", |d| {
        with(&[&at(d, 1, 13), d, &at(d, 9, 20)], |v| {
            let prk = hkdf::extract(&v[0], &v[1]);
            format!("{} {}", out(prk.iter()), out(hkdf::expand(&ByteSeq::from_seq(&prk), &v[2], d.len() + 1).iter()))
        })
    }),
    ("chacha20", |d| {
        let (k, iv) = (cc::Key::from_public_slice(&at(d, 0, 32)), cc::IV::from_public_slice(&at(d, 32, 12)));
        with(&[d], |v| out(cc::chacha(k, iv, &v[0]).unwrap().iter()))
    }),
    ("poly1305", |d| {
        let k = cc::Key::from_public_slice(&at(d, 0, 32));
        with(&[d], |v| format!("{:?}", pl::poly(&v[0], k)))
    }),
    ("chacha20-poly1305", |d| {
        let (k, iv) = (cc::Key::from_public_slice(&at(d, 0, 32)), cc::IV::from_public_slice(&at(d, 32, 12)));
        with(&[&at(d, 7, 11), d], |v| {
            let (c, t) = aead::encrypt(k, iv, &v[0], &v[1]).unwrap();
            let back = aead::decrypt(k, iv, &v[0], &c, t).map(|p| out(p.iter()));
            format!("{} {:?} {:?}", out(c.iter()), t, back)
        })
    }),
    ("chacha20-poly1305, forged", |d| {
        let (k, iv) = (cc::Key::from_public_slice(&at(d, 0, 32)), cc::IV::from_public_slice(&at(d, 32, 12)));
        with(&[&at(d, 7, 11), d], |v| {
            let t = pl::Tag::from_vec(at(d, 3, 16));
            format!("{:?}", aead::decrypt(k, iv, &v[0], &v[1], t).map(|p| out(p.iter())))
        })
    }),
    ("aes", |d| {
        let (k, n) = (aes::Key128::from_public_slice(&at(d, 0, 16)), aes::Nonce::from_public_slice(&at(d, 32, 12)));
        with(&[d], |v| {
            let c = aes::aes128_encrypt(k, n, U32::classify(w(d, 5) as u32 >> 1), &v[0]);
            format!("{} {}", out(c.iter()), out(aes::aes256_decrypt(aes::Key256::from_public_slice(&at(d, 3, 32)), n, U32::classify(1u32), &c).iter()))
        })
    }),
    ("ghash", |d| {
        let k = gf128::Key::from_public_slice(&at(d, 0, 16));
        with(&[d], |v| out(gf128::gmac(&v[0], k).iter()))
    }),
    ("aes-gcm", |d| {
        let (k, n) = (aes::Key128::from_public_slice(&at(d, 0, 16)), aes::Nonce::from_public_slice(&at(d, 32, 12)));
        with(&[&at(d, 3, 21), d], |v| {
            let (c, t) = gcm::encrypt_aes128(k, n, &v[0], &v[1]);
            let back = gcm::decrypt_aes128(k, n, &v[0], &c, t).map(|p| out(p.iter()));
            format!("{} {} {:?}", out(c.iter()), out(t.iter()), back)
        })
    }),
    ("aes-gcm, forged", |d| {
        let (k, n) = (aes::Key256::from_public_slice(&at(d, 0, 32)), aes::Nonce::from_public_slice(&at(d, 32, 12)));
        with(&[&at(d, 3, 21), d], |v| {
            let t = gf128::Tag::from_public_slice(&at(d, 9, 16));
            format!("{:?}", gcm::decrypt_aes256(k, n, &v[0], &v[1], t).map(|p| out(p.iter())))
        })
    }),
    ("secret integers, other widths", |d| {
        let (a, b) = (w(d, 0), w(d, 1));
        let (p, q) = (U8::classify(a as u8), U8::classify(b as u8));
        let (e, f) = (U16::classify(a as u16), U16::classify(b as u16));
        let (g, h) = (I8::classify(a as i8), I128::classify(b as i128 - a as i128));
        (
            format!(
                "{} {} {} {:x} {} {} {} {:?} {} {} {}",
                p + q, p * q, -p, !q, e - f, e.rotate_right(5), e.comp_lt(f), g, -h, h >> 70, U16::max_value()
            ),
            true,
        )
    }),
    ("checked arithmetic, secret", |d| {
        let (a, b) = (U16::classify(w(d, 0) as u16), U16::classify(w(d, 1) as u16 >> 3));
        (format!("{} {}", a.checked_sub(b), b.checked_mul(U16::classify(3u16)).checked_add(b)), true)
    }),
    ("Integer methods, signed", |d| {
        let (a, b) = (I32::classify(w(d, 0) as i32), I32::classify(w(d, 1) as i32));
        let (c, e) = (w(d, 0) as i64 >> 1, w(d, 1) as i64 >> 1);
        (
            format!(
                "{:?} {:?}",
                (a.wrap_add(b), a.wrap_mul(b), a.get_bit(30), a.equal(b), a.greater_than(b)),
                (c.wrap_sub(e), c.greater_than_bm(e), c.get_bit(62), c.modulo(1009), c.sub_mod(e, 65537), Integer::rotate_left(c, 7))
            ),
            true,
        )
    }),
    ("modular inverse, composite", |d| (format!("{}", (w(d, 0) as u32 % 5000).inv(4096 + w(d, 1) as u32 % 3)), true)),
    ("bounded integers from text", |d| {
        let t = String::from_utf8_lossy(d).into_owned();
        (format!("{:?} {:?}", BigU::from_hex(&hex(d)), BigI::from_hex(if d.len() % 2 == 0 { "-" } else { "+" }, &t)), true)
    }),
    ("bounded integers at the edge", |d| {
        let m = BigI::from_literal(w(d, 0) as u128) * BigI::from_literal(w(d, 1) as u128);
        (format!("{:?} {:?} {:?} {:?}", m.bit(5), BigI::pow2(w(d, 2) as usize % 260), m - m * m, BigU::from_literal(3).to_le_bytes()), true)
    }),
    ("field division and constants", |d| {
        let (a, b) = (fe(d, 0), fe(d, 40));
        (format!("{:?}", (a / b, a % b, a.pow_felem(b), PubF::from_hex(&hex(&at(d, 1, 32))), PubF::from_literal(w(d, 3) as u128), a.bit(9))), true)
    }),
    ("hexadecimal text, any", |d| {
        let t = String::from_utf8_lossy(d).into_owned();
        (format!("{:?} {:?}", ByteSeq::from_hex(&t).to_hex(), PublicSeq::<u8>::from_string(t).len()), true)
    }),
    ("equality of containers", |d| {
        with(&[d, &at(d, 1, d.len())], |v| format!("{} {:?} {}", v[0] == v[1], B16::from_public_slice(&at(d, 0, 16)).declassify_eq(&B16::from_public_slice(&at(d, 1, 16))), v[0].len()))
    }),
    ("integers to bytes", |d| {
        let x = w(d, 0);
        (
            format!(
                "{:?} {:?} {:?} {:?} {:?}",
                U64_to_be_bytes(U64::classify(x)), U32_to_le_bytes(U32::classify(x as u32)), u128_to_be_bytes((x as u128) << 9), u16_to_le_bytes(x as u16), U64::classify(x).get_byte(3)
            ),
            true,
        )
    }),
    ("polynomials over the integers", |d| {
        let a: Vec<i128> = (0..d.len() % 9 + 1).map(|i| (w(d, i) % 19) as i128 - 9).collect();
        let b: Vec<i128> = vec![3, (w(d, 9) % 5) as i128, 1];
        let r = format!("{:?} {:?} {:?} {:?}", poly_add(&a, &b, 0), poly_sub(&a, &b, 0), poly_mul(&a, &b, 0), poly_div(&a, &b, 0));
        (r, b[0] == 3)
    }),
    ("ring division", |d| {
        let (a, b) = (pq(d, 0), pq(d, 9));
        (format!("{:?} {}", a.clone() / b.clone(), a == b), true)
    }),
    ("chacha20 state", |d| {
        let (k, iv) = (cc::Key::from_public_slice(&at(d, 0, 32)), cc::IV::from_public_slice(&at(d, 32, 12)));
        let st = cc::block_init(k, U32::classify(w(d, 7) as u32), iv);
        (format!("{:?} {:?}", cc::quarter_round(0, 4, 8, 12, st), out(cc::state_to_bytes(cc::block_inner(k, U32::classify(1u32), iv)).iter())), true)
    }),
    ("chacha20 block", |d| {
        let (k, iv, c) = (cc::Key::from_public_slice(&at(d, 0, 32)), cc::IV::from_public_slice(&at(d, 32, 12)), u32::from_le_bytes([at(d, 44, 1)[0], at(d, 45, 1)[0], 0, 0]));
        (format!("{} {}", out(cc::block(k, U32::classify(c), iv).iter()), out(cc::state_to_bytes(cc::block_inner(k, U32::classify(c), iv)).iter())), true)
    }),
    ("aes-128 block", |d| (out(aes::aes128_encrypt_block(aes::Key128::from_public_slice(&at(d, 0, 16)), aes::Block::from_public_slice(&at(d, 32, 16)), 4, 10).iter()), true)),
    ("aes, other directions", |d| {
        let (k, l, n, c) = (aes::Key128::from_public_slice(&at(d, 0, 16)), aes::Key256::from_public_slice(&at(d, 0, 32)), aes::Nonce::from_public_slice(&at(d, 32, 12)), U32::classify(u32::from(at(d, 44, 1)[0]) + 1));
        with(&[d], |v| format!("{} {}", out(aes::aes128_decrypt(k, n, c, &v[0]).iter()), out(aes::aes256_encrypt(l, n, c, &v[0]).iter())))
    }),
    ("blake2b, generic", |d| with(&[d], |v| out(blake2b::blake2::<U64>(&v[0], blake2b::BlakeVariant::Blake2B).iter()))),
    ("poly1305 with derived key", |d| {
        let (k, iv) = (cc::Key::from_public_slice(&at(d, 0, 32)), cc::IV::from_public_slice(&at(d, 32, 12)));
        with(&[d], |v| format!("{:?}", pl::poly_mac(&v[0], k, iv)))
    }),
    ("hkdf, long output", |d| {
        with(&[&at(d, 1, 40), &at(d, 9, 20)], |v| out(hkdf::expand(&v[0], &v[1], (w(d, 0) % 9000) as usize).iter()))
    }),
    ("aes-256 block", |d| (out(aes::aes256_encrypt_block(aes::Key256::from_public_slice(&at(d, 0, 32)), aes::Block::from_public_slice(&at(d, 32, 16)), 8, 14).iter()), true)),
    ("aes-gcm-256", |d| {
        let (k, n) = (aes::Key256::from_public_slice(&at(d, 0, 32)), aes::Nonce::from_public_slice(&at(d, 32, 12)));
        with(&[&at(d, 3, d.len() / 3), d], |v| {
            let (c, t) = gcm::encrypt_aes256(k, n, &v[0], &v[1]);
            format!("{} {} {:?}", out(c.iter()), out(t.iter()), gcm::decrypt_aes256(k, n, &v[0], &c, t).map(|p| out(p.iter())))
        })
    }),
    ("test vectors", |d| {
        let path = std::env::temp_dir().join(format!("vh-effects-{}-{:?}.json", std::process::id(), std::thread::current().id()));
        std::fs::write(&path, format!("{{\"a\": {}, \"b\": \"{}\"}}", w(d, 0), hex(d))).expect("vector file");
        // one leaked path per thread would do, but the loader wants a static string
        let p: &'static str = Box::leak(path.to_str().unwrap().to_string().into_boxed_str());
        let r = caught(|| Vector::new(p));
        let _ = std::fs::remove_file(&path);
        (format!("{:?}", r.expect("vector refused")), true)
    }),
];
/// Slow ones, driven with fewer cases.
const CURVES: &[(&str, fn(&[u8]) -> Out)] = &[
    ("x25519", |d| {
        let (k, u) = (x::SerializedScalar::from_public_slice(&at(d, 0, 32)), x::SerializedPoint::from_public_slice(&at(d, 32, 32)));
        (out(x::scalarmult(k, u).iter()), true)
    }),
    ("x25519 public key", |d| (out(x::secret_to_public(x::SerializedScalar::from_public_slice(&at(d, 0, 32))).iter()), true)),
    ("p-256", |d| {
        let k = p256::Scalar::from_le_bytes(&at(d, 0, 32));
        (format!("{:?}", p256::point_mul(k)), true)
    }),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    op: usize,
    d: B,
}

/// Calls of one operation on two inputs in turn.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    op: usize,
    d: B,
    rounds: usize,
}

fn all_ops(i: usize) -> (&'static str, fn(&[u8]) -> Out) {
    if i < OPS.len() { OPS[i] } else { CURVES[(i - OPS.len()) % CURVES.len()] }
}
/// Calls of a few operations on variations of one input.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    d: B,
    ops: Vec<usize>,
    /// which of the operations, and how its input differs from `d`
    steps: Vec<(u8, Vary)>,
    shuffle: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Vary {
    Same,
    Flip(u16, u8),
    Tail(u8),
    Cut(u8),
    Longer(B),
    Other(B),
    /// the input repeated, with differences, to this length
    Grow(u16),
}
impl History {
    fn calls(&self) -> Vec<Case> {
        self.steps
            .iter()
            .map(|(k, v)| {
                let mut d = self.d.0.clone();
                match v {
                    Vary::Same => {}
                    Vary::Flip(at, x) => if !d.is_empty() { let n = d.len(); d[*at as usize % n] ^= x },
                    Vary::Tail(x) => if let Some(l) = d.last_mut() { *l ^= x },
                    Vary::Cut(n) => d.truncate(d.len().saturating_sub(*n as usize)),
                    Vary::Longer(b) => d.extend_from_slice(&b.0),
                    Vary::Other(b) => d = b.0.clone(),
                    Vary::Grow(n) => d = at(&d, 0, *n as usize),
                }
                Case { op: self.ops[*k as usize % self.ops.len()], d: B(d) }
            })
            .collect()
    }
}
fn history(nops: usize, base: usize, max: usize) -> impl Strategy<Value = History> {
    let vary = prop_oneof![
        2 => Just(Vary::Same),
        2 => (any::<u16>(), 1..=255u8).prop_map(|(a, x)| Vary::Flip(a, x)),
        // keys, nonces, counters and the first operands come from here
        3 => (0..64u16, 1..=255u8).prop_map(|(a, x)| Vary::Flip(a, x)),
        1 => (32..48u16, 1..=255u8).prop_map(|(a, x)| Vary::Flip(a, x)),
        2 => (1..=255u8).prop_map(Vary::Tail),
        1 => (1..40u8).prop_map(Vary::Cut),
        1 => bytes_of(1..70usize).prop_map(Vary::Longer),
        2 => bytes_of(0..150usize).prop_map(Vary::Other),
    ];
    (bytes_of(prop_oneof![5 => 40..140usize, 2 => 140..1500usize]), prop::collection::vec(base..base + nops, 1..4), prop::collection::vec((any::<u8>(), vary), 2..=max), prop::collection::vec(any::<u8>(), 1..12))
        .prop_map(|(d, ops, steps, shuffle)| History { d, ops, steps, shuffle })
}
/// Histories of one keyed operation on a message of several blocks: the calls differ in the key, the
/// nonce, the counter or the text alone, or not at all.
fn keyed_history(ops: Vec<usize>) -> impl Strategy<Value = History> {
    let mixed = prop_oneof![
        1 => Just(Vary::Same),
        2 => (0..32u16, 1..=255u8).prop_map(|(a, x)| Vary::Flip(a, x)),
        4 => (32..48u16, 1..=255u8).prop_map(|(a, x)| Vary::Flip(a, x)),
        2 => (1..=255u8).prop_map(Vary::Tail),
        1 => (1..70u8).prop_map(Vary::Cut),
        1 => bytes_of(1..70usize).prop_map(Vary::Longer),
    ];
    // all calls of a history differ in one place only: part of the key, the nonce, the text
    let field = prop::sample::select(vec![(0u16, 16u16), (16, 32), (32, 44), (32, 44), (44, 48), (48, 64), (64, 1000)]);
    let one = field.prop_flat_map(|(a, b)| prop::collection::vec((Just(0u8), prop_oneof![1 => Just(Vary::Same), 4 => (a..b, 1..=255u8).prop_map(|(a, x)| Vary::Flip(a, x))]), 2..5));
    let steps = prop_oneof![prop::collection::vec((Just(0u8), mixed), 2..5), one];
    (bytes_of(prop_oneof![3 => 60..300usize, 4 => 300..900usize, 2 => 900..1700usize]), prop::sample::select(ops), steps, prop::collection::vec(any::<u8>(), 1..12))
        .prop_map(|(d, op, steps, shuffle)| History { d, ops: vec![op], steps, shuffle })
}
/// Histories of one operation on messages whose lengths lie far apart, equal or not.
fn length_history(ops: Vec<usize>) -> impl Strategy<Value = History> {
    let len = prop_oneof![3 => 0..200u16, 1 => Just(0u16), 2 => 200..2000u16, 3 => 2000..20_000u16, 1 => prop::sample::select(vec![4096u16, 4097, 8192, 8193, 16384, 16385])];
    let vary = prop_oneof![1 => Just(Vary::Same), 6 => len.prop_map(Vary::Grow)];
    (bytes_of(40..140usize), prop::sample::select(ops), prop::collection::vec((Just(0u8), vary), 2..6), prop::collection::vec(any::<u8>(), 1..12))
        .prop_map(|(d, op, steps, shuffle)| History { d, ops: vec![op], steps, shuffle })
}
fn answer(c: &Case) -> String {
    match caught(|| (all_ops(c.op).1)(&c.d)) {
        Ok((s, _)) => s,
        Err(_) => "refused".into(),
    }
}
/// Runs the calls in the given order in a new process; the answers come back in that order.
fn fresh(calls: &[Case], order: &[usize]) -> Vec<String> {
    spawn(order.iter().map(|i| &calls[*i]).collect(), 1, order.len())
}
fn spawn(cs: Vec<&Case>, rounds: usize, expect: usize) -> Vec<String> {
    use std::process::{Command, Stdio};
    let mut p = Command::new(std::env::current_exe().expect("own path"))
        .env("VH_EFFECTS_CHILD", rounds.to_string())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    p.stdin.take().unwrap().write_all(serde_json::to_string(&cs).unwrap().as_bytes()).expect("child input");
    let o = p.wait_with_output().expect("child output");
    match serde_json::from_slice::<Vec<String>>(&o.stdout[o.stdout.iter().rposition(|b| *b == 1).map_or(0, |i| i + 1)..]) {
        Ok(v) if v.len() == expect => v,
        _ => { eprintln!("history process failed: {:?}", o.status); std::process::exit(5) }
    }
}
/// The same few calls many times over, in a new process; the first answer that differs from that of the
/// first round: its position among the calls, the first answer, and the differing one.
fn many(calls: &[Case], rounds: usize) -> Option<(usize, String, String)> {
    let v = spawn(calls.iter().collect(), rounds, 3);
    let mut v = v.into_iter();
    let k = v.next().unwrap();
    (!k.is_empty()).then(|| (k.parse().expect("position"), v.next().unwrap(), v.next().unwrap()))
}
fn child(rounds: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    if rounds > 1 {
        let cs: Vec<Case> = serde_json::from_reader(std::io::stdin()).expect("calls");
        let first: Vec<String> = cs.iter().map(answer).collect();
        let found = (cs.len()..cs.len() * rounds).find_map(|k| {
            let a = answer(&cs[k % cs.len()]);
            (a != first[k % cs.len()]).then(|| [k.to_string(), first[k % cs.len()].clone(), a])
        });
        return print!("\u{1}{}", serde_json::to_string(&found.unwrap_or_default()).unwrap());
    }
    let cs: Vec<Case> = serde_json::from_reader(std::io::stdin()).expect("calls");
    let a: Vec<String> = cs.iter().map(answer).collect();
    // whatever the operations print is judged elsewhere; the answers follow a mark
    print!("\u{1}{}", serde_json::to_string(&a).unwrap());
}

static LOCK: Mutex<()> = Mutex::new(());

fn c31(ctx: &mut Ctx) {
    ctx.rule("the input bytes are not all equal");
    // The streams of this process go to a file whose growth is watched around every call.
    let path = std::env::temp_dir().join(format!("vh-effects-{}", std::process::id()));
    let sink = std::fs::OpenOptions::new().create_new(true).append(true).open(&path).expect("sink");
    let watch = File::open(&path).expect("sink");
    let (old1, old2) = unsafe { (dup(1), dup(2)) };
    let redirect = |on: bool| unsafe {
        dup2(if on { sink.as_raw_fd() } else { old1 }, 1);
        dup2(if on { sink.as_raw_fd() } else { old2 }, 2);
    };
    let _ = std::fs::remove_file(&path);
    let size = || {
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
        watch.metadata().map(|m| m.len()).unwrap_or(0)
    };
    let judge = |ops: &[(&str, fn(&[u8]) -> Out)], c: &Case, r: &mut Rec| -> Res {
        let (name, f) = ops[c.op % ops.len()];
        r.nontrivial(c.d.iter().any(|b| *b != c.d[0]));
        r.class(name);
        let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        redirect(true);
        let before = size();
        let a = caught(|| f(&c.d));
        let b = caught(|| f(&c.d));
        let after = size();
        redirect(false);
        if let Err(e) = &a {
            let words: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            r.class(format!("refused: {}: {}", name, words));
        }
        eq(&format!("{}: bytes written to the standard streams", name), after - before, 0)?;
        eq(&format!("{}: result on repetition", name), b, a.clone())?;
        if let Ok((_, same)) = a {
            ensure(same, || format!("{}: an argument changed", name))?;
        }
        Ok(())
    };
    ctx.run(
        "operations",
        24_000,
        200_000,
        || (0..OPS.len(), bytes_of(prop_oneof![3 => 0..40usize, 2 => 40..200usize, 1 => prop_oneof![Just(0usize), Just(64), Just(128), Just(136)], 1 => 200..3000usize])).prop_map(|(op, d)| Case { op, d }),
        |c: &Case, r: &mut Rec| judge(OPS, c, r),
    );
    ctx.run("curves", 60, 1_500, || (0..CURVES.len(), bytes_of(30..70usize)).prop_map(|(op, d)| Case { op, d }), |c: &Case, r: &mut Rec| judge(CURVES, c, r));
    // Histories of related calls, each run by fresh processes in two orders: an answer that depends on
    // what was called before betrays state that outlives a call.
    let hist = |h: &History, r: &mut Rec| -> Res {
        let calls = h.calls();
        r.nontrivial(calls.len() >= 3);
        r.class(format!("calls={}", calls.len()));
        for c in &calls { r.class(format!("history: {}", all_ops(c.op).0)); }
        let n = calls.len();
        let forward: Vec<usize> = (0..n).collect();
        let mut other: Vec<usize> = forward.clone();
        // a permutation drawn with the case, every call twice
        for i in (1..n).rev() { other.swap(i, h.shuffle[i % h.shuffle.len()] as usize % (i + 1)); }
        let twice: Vec<usize> = other.iter().chain(other.iter().rev()).copied().collect();
        let a = fresh(&calls, &forward);
        let b = fresh(&calls, &twice);
        for (k, i) in twice.iter().enumerate() {
            ensure(a[*i] == b[k], || format!("{} answers {} as call {} of one history and {} as call {} of another", all_ops(calls[*i].op).0, a[*i], i, b[k], k))?;
        }
        Ok(())
    };
    ctx.run("histories", 1_200, 12_000, || history(OPS.len(), 0, 10), hist);
    ctx.run("histories-curves", 16, 200, || history(CURVES.len(), OPS.len(), 3), hist);
    let keyed = |c: &[&str]| -> Vec<usize> { (0..OPS.len()).filter(|i| c.iter().any(|x| OPS[*i].0.contains(x))).collect() };
    let (stream, other) = (keyed(&["chacha20", "poly1305", "aes", "ghash", "gcm"]), keyed(&["sha-256", "sha-3", "shake", "blake2b", "hmac", "hkdf"]));
    ctx.run("histories-ciphers", 1_600, 8_000, || keyed_history(stream.clone()), hist);
    ctx.run("histories-hashes", 500, 4_000, || keyed_history(other.clone()), hist);
    let sized: Vec<usize> = stream.iter().chain(&other).copied().filter(|i| !OPS[*i].0.contains(" block") && !OPS[*i].0.contains("state")).collect();
    ctx.run("histories-lengths", 400, 4_000, || length_history(sized.clone()), hist);
    // One call after very many others, in a process of its own: the answers stay as they were first.
    let rounds = |fast: usize, slow: usize| -> Vec<Many> {
        (0..OPS.len() + CURVES.len())
            .map(|op| {
                let mut k = ctx.seed ^ (op as u64 + 1) * 0x9E37_79B9;
                let d = (0..57).map(|_| { k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (k >> 40) as u8 }).collect();
                Many { op, d: B(d), rounds: if op >= OPS.len() { slow } else if OPS[op].0.contains("long") { fast / 50 } else { fast } }
            })
            .collect()
    };
    let items = if ctx.thorough() { rounds(150_000, 1_500) } else { rounds(12_000, 60) };
    ctx.exhaust("many-calls", items.into_iter(), |m: &Many, r: &mut Rec| {
        r.nontrivial(m.rounds > 50);
        r.class(format!("rounds={}", m.rounds));
        let mut e = m.d.0.clone();
        e[40] ^= 1;
        e.push(7);
        let calls = [Case { op: m.op, d: m.d.clone() }, Case { op: m.op, d: B(e) }];
        if let Some((k, a, b)) = many(&calls, m.rounds) {
            return Err(format!("{} answers {} as call {} of one process and {} before", all_ops(m.op).0, b, k, a));
        }
        Ok(())
    });
    // The same calls from several threads at once give the answers each gives alone.
    ctx.run("concurrent", 700, 8_000, || history(OPS.len(), 0, 6), |h: &History, r: &mut Rec| -> Res {
        let calls = h.calls();
        r.nontrivial(calls.len() >= 3);
        r.class(format!("calls={}", calls.len()));
        let alone: Vec<String> = calls.iter().map(answer).collect();
        let (n, gate) = (calls.len(), std::sync::Barrier::new(4));
        let together: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4usize)
                .map(|t| {
                    let (calls, gate) = (&calls, &gate);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            gate.wait();
                            (0..2 * n).map(|k| { let i = (k + t * (1 + n / 4)) % n; (i, answer(&calls[i])) }).collect()
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for (i, a) in together.iter().flatten() {
            ensure(*a == alone[*i], || format!("{} answers {} among concurrent calls and {} alone", all_ops(calls[*i].op).0, a, alone[*i]))?;
        }
        Ok(())
    });
    ctx.note("operations", OPS.iter().chain(CURVES).map(|o| o.0).collect::<Vec<_>>());
    unsafe {
        drop(File::from_raw_fd(old1));
        drop(File::from_raw_fd(old2));
    }
}

fn main() {
    if let Some(n) = std::env::var("VH_EFFECTS_CHILD").ok() {
        return child(n.parse().expect("rounds"));
    }
    main_with(&[("C31", c31)])
}
