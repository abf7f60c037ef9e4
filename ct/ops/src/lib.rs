//! Operations on secrets, one plain function each, compiled with tracing.
use hacspec::prelude::*;
use hacspec::*;
use hacspec_examples::chacha20_poly1305::chacha20 as cc;
use hacspec_examples::{blake2::blake2b, fips202, hkdf, hmac, sha2};

bytes!(B16, 16);
array!(W8, 8, U32);

pub enum Arg {
    /// two words of the operation's width
    Words,
    /// a byte string whose length is public
    Bytes,
}
/// Secret input, already classified: words as 128-bit patterns, and bytes.
pub struct In {
    pub a: U128,
    pub b: U128,
    pub bit: U128,
    pub data: Vec<U8>,
    /// public: shift amount, position or length
    pub k: u32,
}
pub type Op = fn(&In);
#[inline(never)]
fn sink<T>(x: T) {
    std::hint::black_box(&x);
}

macro_rules! unsigned {
    ($v:ident, $T:ident, $t:ty) => {{
        $v.push((concat!(stringify!($T), " arithmetic"), Arg::Words, (|i: &In| {
            let (a, b) = ($T::from(i.a), $T::from(i.b));
            let k = i.k % <$t>::BITS;
            sink(a + b); sink(a - b); sink(a * b); sink(a & b); sink(a | b); sink(a ^ b); sink(!a); sink(-a);
            sink(a << k); sink(a >> k); sink(a.rotate_left(k)); sink(a.rotate_right(k));
            let mut c = a;
            c += b; c -= a; c *= b; c ^= a; c &= b; c |= a; c <<= k; c >>= k;
            sink(c);
        }) as Op));
        $v.push((concat!(stringify!($T), " comparison"), Arg::Words, (|i: &In| {
            let (a, b) = ($T::from(i.a), $T::from(i.b));
            sink(a.comp_eq(b)); sink(a.comp_ne(b)); sink(a.comp_gt(b)); sink(a.comp_gte(b)); sink(a.comp_lt(b)); sink(a.comp_lte(b));
            sink(a.equal_bm(b)); sink(a.not_equal_bm(b)); sink(a.greater_than_bm(b)); sink(a.greater_than_or_qual_bm(b));
            sink(a.less_than_bm(b)); sink(a.less_than_or_equal_bm(b));
        }) as Op));
        $v.push((concat!(stringify!($T), " division"), Arg::Words, (|i: &In| {
            sink(ct_div($T::from(i.a), $T::from(i.b) | $T::one()));
        }) as Op));
    }};
}
macro_rules! both {
    ($v:ident, $T:ident, $t:ty, $w:path) => {{
        $v.push((concat!(stringify!($T), " bits"), Arg::Words, (|i: &In| {
            let (a, b) = ($T::from($w(i.a)), $T::from($w(i.b)));
            let k = i.k % <$t>::BITS;
            let bit = $T::from($w(i.bit));
            sink(Integer::get_bit(a, k)); sink(Integer::set_bit(a, bit, k)); sink(Integer::set(a, k, b, (k + 3) % <$t>::BITS));
            sink(<$T as Integer>::rotate_left(a, k)); sink(<$T as Integer>::rotate_right(a, k));
            sink(a.wrap_add(b)); sink(a.wrap_sub(b)); sink(a.wrap_mul(b));
            sink(NumericBase::pow(a, i.k));
        }) as Op));
        $v.push((concat!(stringify!($T), " selection"), Arg::Words, (|i: &In| {
            let (a, b) = ($T::from($w(i.a)), $T::from($w(i.b)));
            let bit = $T::from($w(i.bit));
            let m = $T::default().wrap_sub(bit);
            let k = i.k % <$t>::BITS;
            sink(cswap(a, b, m)); sink(cswap_bit(a, b, bit)); sink(cadd(a, b, m)); sink(csub(a, b, m)); sink(cmul(a, b, m));
            sink(cset_bit(a, bit, k, m));
        }) as Op));
        $v.push((concat!(stringify!($T), " bytes"), Arg::Words, (|i: &In| {
            let v = [$T::from($w(i.a)), $T::from($w(i.b))];
            let (l, b) = ($T::to_le_bytes(&v), $T::to_be_bytes(&v));
            sink($T::from_be_bytes(&l)); sink($T::from_le_bytes(&b));
        }) as Op));
    }};
}
macro_rules! signed {
    ($v:ident, $T:ident, $t:ty) => {{
        $v.push((concat!(stringify!($T), " arithmetic"), Arg::Words, (|i: &In| {
            let (a, b) = ($T::from(I128::from(i.a)), $T::from(I128::from(i.b)));
            let k = i.k % <$t>::BITS;
            sink(a + b); sink(a - b); sink(a * b); sink(a & b); sink(a | b); sink(a ^ b); sink(!a);
            sink(a << k); sink(a >> k); sink(a.rotate_left(k)); sink(a.rotate_right(k));
        }) as Op));
    }};
}

fn seq(i: &In) -> ByteSeq {
    Seq::from_slice(&i.data)
}

pub fn ops() -> Vec<(&'static str, Arg, Op)> {
    let mut v: Vec<(&'static str, Arg, Op)> = vec![];
    unsigned!(v, U8, u8);
    unsigned!(v, U16, u16);
    unsigned!(v, U32, u32);
    unsigned!(v, U64, u64);
    unsigned!(v, U128, u128);
    both!(v, U8, u8, U128::from);
    both!(v, U16, u16, U128::from);
    both!(v, U32, u32, U128::from);
    both!(v, U64, u64, U128::from);
    both!(v, U128, u128, U128::from);
    both!(v, I8, i8, I128::from);
    both!(v, I16, i16, I128::from);
    both!(v, I32, i32, I128::from);
    both!(v, I64, i64, I128::from);
    both!(v, I128, i128, I128::from);
    signed!(v, I8, i8);
    signed!(v, I16, i16);
    signed!(v, I32, i32);
    signed!(v, I64, i64);
    signed!(v, I128, i128);
    v.push(("casts", Arg::Words, |i| {
        let (a, b) = (i.a, I128::from(i.b));
        sink(U8::from(a)); sink(U16::from(a)); sink(U32::from(a)); sink(U64::from(a));
        sink(I8::from(b)); sink(I16::from(b)); sink(I32::from(b)); sink(I64::from(b));
        sink(I64::from(U64::from(a))); sink(U64::from(I64::from(b))); sink(I8::from(U8::from(a))); sink(U8::from(I8::from(b)));
        sink(U128::from(U8::from(a))); sink(I128::from(I8::from(b))); sink(U32::from(I32::from(b))); sink(U128::from(b));
    }));
    v.push(("sequences", Arg::Bytes, |i| {
        let s = seq(i);
        let n = s.len();
        let k = i.k as usize % (n + 1);
        sink(s.sub(k, n - k));
        sink(s.clone().update(k, &s.sub(0, n - k)));
        let c = 1 + i.k as usize % 9;
        for j in 0..s.num_chunks(c) {
            let (_, x) = s.get_chunk(c, j);
            sink(s.clone().set_chunk(c, j, &x));
        }
        sink(ByteSeq::from_seq(&s));
    }));
    v.push(("arrays", Arg::Bytes, |i| {
        let mut s = seq(i);
        if s.len() < 16 {
            s = Seq::new(16).update_start(&s);
        }
        let a = B16::from_seq(&s.sub(0, 16));
        sink(a.to_be_U32s()); sink(a.to_le_U64s()); sink(a.to_U128s_be());
        sink(a.update_sub(3, &s, 1, 12));
        sink(a ^ a); sink(a + a);
        let mut w = W8::new();
        for j in 0..8usize {
            w[j] = U32::from(i.a) + U32::from(i.b);
        }
        sink(w.to_be_bytes()); sink(w.to_le_bytes()); sink(w + w); sink(w ^ w); sink(w * w); sink(w - w);
    }));
    v.push(("words and bytes", Arg::Words, |i| {
        let (a, b, c, d) = (i.a, U64::from(i.a), U32::from(i.b), U16::from(i.b));
        sink(U128_from_le_bytes(U128_to_be_bytes(a))); sink(U128_from_be_bytes(U128_to_le_bytes(a)));
        sink(U64_from_le_bytes(U64_to_be_bytes(b))); sink(U64_from_be_bytes(U64_to_le_bytes(b)));
        sink(U32_from_le_bytes(U32_to_be_bytes(c))); sink(U32_from_be_bytes(U32_to_le_bytes(c)));
        sink(U16_from_le_bytes(U16_to_be_bytes(d))); sink(U16_from_be_bytes(U16_to_le_bytes(d)));
        macro_rules! generic { ($($T:ident $x:expr),*) => { $(
            let (l, m) = (UnsignedSecretInteger::to_le_bytes($x), UnsignedSecretInteger::to_be_bytes($x));
            sink(<$T as UnsignedSecretInteger>::from_be_bytes(&l)); sink(<$T as UnsignedSecretInteger>::from_le_bytes(&m));
        )* } }
        generic!(U128 a, U64 b, U32 c, U16 d, U8 U8::from(i.a));
    }));
    v.push(("chacha20 block", Arg::Bytes, |i| {
        let s = Seq::new(44).update_start(&seq(i).sub(0, i.data.len().min(44)));
        sink(cc::block(cc::Key::from_seq(&s.sub(0, 32)), U32::from(i.a), cc::IV::from_seq(&s.sub(32, 12))));
    }));
    v.push(("chacha20", Arg::Bytes, |i| {
        let s = Seq::new(44).update_start(&seq(i).sub(0, i.data.len().min(44)));
        sink(cc::chacha(cc::Key::from_seq(&s.sub(0, 32)), cc::IV::from_seq(&s.sub(32, 12)), &seq(i)));
    }));
    v.push(("sha-256", Arg::Bytes, |i| sink(sha2::hash(&seq(i)))));
    v.push(("sha3-224", Arg::Bytes, |i| sink(fips202::sha3224(&seq(i)))));
    v.push(("sha3-256", Arg::Bytes, |i| sink(fips202::sha3256(&seq(i)))));
    v.push(("sha3-384", Arg::Bytes, |i| sink(fips202::sha3384(&seq(i)))));
    v.push(("sha3-512", Arg::Bytes, |i| sink(fips202::sha3512(&seq(i)))));
    v.push(("shake128", Arg::Bytes, |i| sink(fips202::shake128(&seq(i), i.k as usize))));
    v.push(("shake256", Arg::Bytes, |i| sink(fips202::shake256(&seq(i), i.k as usize))));
    v.push(("blake2b", Arg::Bytes, |i| sink(blake2b::blake2b(&seq(i)))));
    v.push(("hmac", Arg::Bytes, |i| {
        let s = seq(i);
        let k = i.k as usize % (s.len() + 1);
        sink(hmac::hmac(&s.sub(0, k), &s.sub(k, s.len() - k)));
    }));
    v.push(("hkdf", Arg::Bytes, |i| {
        let s = seq(i);
        let k = i.k as usize % (s.len() + 1);
        let prk = hkdf::extract(&s.sub(0, k), &s.sub(k, s.len() - k));
        sink(hkdf::expand(&ByteSeq::from_seq(&prk), &s.sub(0, k), 1 + i.k as usize));
    }));
    v
}
