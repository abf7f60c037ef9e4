//! C01..C04: secret and public machine integers.
use hacspec::prelude as hp;
use hacspec::prelude::*;
use hacspec::*;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bin {
    a: W,
    b: W,
    s: u32,
}

fn bin(bits: u32) -> impl Strategy<Value = Bin> {
    (word2(bits), prop_oneof![3 => 0..bits, 1 => Just(0u32), 1 => Just(bits - 1)])
        .prop_map(|((a, b), s)| Bin { a, b, s })
}

fn all8() -> impl Iterator<Item = Bin> {
    (0..256u128).flat_map(|a| (0..256u128).map(move |b| Bin { a: W(a), b: W(b), s: ((a * 7 + b) % 8) as u32 }))
}

// ---------------------------------------------------------------- C01
macro_rules! arith {
    ($c:expr, $T:ident, $t:ty, $bits:expr) => {
        fn $T(c: &Bin, r: &mut Rec) -> Res {
            let (a, b) = (c.a.0 as $t, c.b.0 as $t);
            let (x, y) = ($T::classify(a), $T::classify(b));
            let d = |v: $T| v.declassify();
            let (add_o, sub_o, mul_o) =
                (a.checked_add(b).is_none(), a.checked_sub(b).is_none(), a.checked_mul(b).is_none());
            r.nontrivial(add_o || sub_o || mul_o || c.s > 0);
            r.class_if(add_o, "add-overflows");
            r.class_if(sub_o, "sub-overflows");
            r.class_if(mul_o, "mul-overflows");
            r.class_if(!(add_o || sub_o || mul_o), "nothing-overflows");
            eq("a+b", d(no_panic("+", || x + y)?), a.wrapping_add(b))?;
            eq("a-b", d(no_panic("-", || x - y)?), a.wrapping_sub(b))?;
            eq("a*b", d(no_panic("*", || x * y)?), a.wrapping_mul(b))?;
            eq("a&b", d(x & y), a & b)?;
            eq("a|b", d(x | y), a | b)?;
            eq("a^b", d(x ^ y), a ^ b)?;
            eq("!a", d(!x), !a)?;
            eq("a<<s", d(x << c.s), a << c.s)?;
            eq("a>>s", d(x >> c.s), a >> c.s)?;
            eq("a rotl s", d($T::rotate_left(x, c.s)), a.rotate_left(c.s))?;
            eq("a rotr s", d($T::rotate_right(x, c.s)), a.rotate_right(c.s))?;
            macro_rules! asg { ($op:tt, $v:expr, $w:expr) => {{ let mut z = x; z $op $v; eq(stringify!($op), d(z), $w)?; }} }
            asg!(+=, y, a.wrapping_add(b));
            asg!(-=, y, a.wrapping_sub(b));
            asg!(*=, y, a.wrapping_mul(b));
            asg!(&=, y, a & b);
            asg!(|=, y, a | b);
            asg!(^=, y, a ^ b);
            asg!(<<=, c.s, a << c.s);
            asg!(>>=, c.s, a >> c.s);
            exact_or_panic("checked_add", a.checked_add(b), || d(x.checked_add(y)))?;
            exact_or_panic("checked_sub", a.checked_sub(b), || d(x.checked_sub(y)))?;
            exact_or_panic("checked_mul", a.checked_mul(b), || d(x.checked_mul(y)))?;
            eq("wrap_add", d(x.wrap_add(y)), a.wrapping_add(b))?;
            eq("wrap_sub", d(x.wrap_sub(y)), a.wrapping_sub(b))?;
            eq("wrap_mul", d(x.wrap_mul(y)), a.wrapping_mul(b))?;
            // negation of the minimum signed value has no representable result: not judged
            if $bits == 0 || a != <$t>::MIN || <$t>::MIN == 0 {
                eq("-a", d(no_panic("neg", || -x)?), a.wrapping_neg())?;
            }
            let e = c.s % 9;
            let mut p: $t = 1;
            for _ in 0..e { p = p.wrapping_mul(a); }
            eq("pow", d(NumericBase::pow(x, e)), p)?;
            // division of a secret value through the numeric trait is exact truncated division
            if b != 0 && a.checked_div(b).is_some() {
                eq("div", d(NumericBase::div(x, y)), a / b)?;
            }
            eq("zero", d($T::zero()), 0)?;
            eq("one", d($T::one()), 1)?;
            eq("ones", d($T::ones()), !0)?;
            eq("max_value", d($T::max_value()), <$t>::MAX)?;
            eq("max_val", d($T::max_val()), <$t>::MAX)?;
            eq("default", d($T::default()), 0)?;
            eq("ZERO/ONE/TWO", (d($T::ZERO), d($T::ONE), d($T::TWO), $T::NUM_BITS), (0, 1, 2, <$t>::BITS))?;
            Ok(())
        }
        let bits = <$t>::BITS;
        if bits == 8 {
            $c.exhaust(stringify!($T), all8(), $T);
        } else {
            $c.run(stringify!($T), 120_000, 3_000_000, || bin(bits), $T);
        }
    };
}

macro_rules! pub_arith {
    ($c:expr, $n:ident, $t:ident) => {
        fn $n(c: &Bin, r: &mut Rec) -> Res {
            let (a, b) = (c.a.0 as $t, c.b.0 as $t);
            r.nontrivial(a.checked_add(b).is_none() || a.checked_mul(b).is_none() || a.checked_sub(b).is_none());
            eq("wrap_add", NumericBase::wrap_add(a, b), a.wrapping_add(b))?;
            eq("wrap_sub", NumericBase::wrap_sub(a, b), a.wrapping_sub(b))?;
            eq("wrap_mul", NumericBase::wrap_mul(a, b), a.wrapping_mul(b))?;
            if b != 0 {
                eq("wrap_div", NumericBase::wrap_div(a, b), a.wrapping_div(b))?;
                if let Some(q) = a.checked_div(b) {
                    eq("div", NumericBase::div(a, b), q)?;
                }
            }
            let e = c.s % 9;
            if let Some(p) = a.checked_pow(e) {
                eq("pow", NumericBase::pow(a, e), p)?;
            }
            eq("consts", (<$t as Integer>::ZERO, <$t as Integer>::ONE, <$t as Integer>::TWO, <$t as Integer>::NUM_BITS, <$t as NumericBase>::max_val()), (0, 1, 2, <$t>::BITS, <$t>::MAX))
        }
        let bits = <$t>::BITS;
        if bits == 8 {
            $c.exhaust(concat!("public-", stringify!($t)), all8(), $n);
        } else {
            $c.run(concat!("public-", stringify!($t)), 60_000, 1_000_000, || bin(bits), $n);
        }
    };
}

#[allow(non_snake_case)]
fn c01(c: &mut Ctx) {
    c.rule("operand pairs per integer type, biased to boundaries and related operands (8-bit types: all 65536 pairs); non-trivial: some of +,-,* overflows the width or the shift/rotate amount is non-zero");
    arith!(c, U8, u8, 0);
    arith!(c, U16, u16, 0);
    arith!(c, U32, u32, 0);
    arith!(c, U64, u64, 0);
    arith!(c, U128, u128, 0);
    arith!(c, I8, i8, 1);
    arith!(c, I16, i16, 1);
    arith!(c, I32, i32, 1);
    arith!(c, I64, i64, 1);
    arith!(c, I128, i128, 1);
    pub_arith!(c, pu8, u8);
    pub_arith!(c, pu16, u16);
    pub_arith!(c, pu32, u32);
    pub_arith!(c, pu64, u64);
    pub_arith!(c, pu128, u128);
    pub_arith!(c, pi8, i8);
    pub_arith!(c, pi16, i16);
    pub_arith!(c, pi32, i32);
    pub_arith!(c, pi64, i64);
    pub_arith!(c, pi128, i128);
}

// ---------------------------------------------------------------- C02
macro_rules! cmp_bool {
    ($a:expr, $b:expr, $x:expr, $y:expr) => {
        eq("equal", $x.equal($y), $a == $b)?;
        eq("greater_than", $x.greater_than($y), $a > $b)?;
        eq("greater_than_or_qual", $x.greater_than_or_qual($y), $a >= $b)?;
        eq("less_than", $x.less_than($y), $a < $b)?;
        eq("less_than_or_equal", $x.less_than_or_equal($y), $a <= $b)?;
    };
}
macro_rules! cmp_bm {
    ($a:expr, $b:expr, $x:expr, $y:expr, $m:expr, $d:expr) => {
        eq("equal_bm", $d($x.equal_bm($y)), $m($a == $b))?;
        eq("not_equal_bm", $d($x.not_equal_bm($y)), $m($a != $b))?;
        eq("greater_than_bm", $d($x.greater_than_bm($y)), $m($a > $b))?;
        eq("greater_than_or_qual_bm", $d($x.greater_than_or_qual_bm($y)), $m($a >= $b))?;
        eq("less_than_bm", $d($x.less_than_bm($y)), $m($a < $b))?;
        eq("less_than_or_equal_bm", $d($x.less_than_or_equal_bm($y)), $m($a <= $b))?;
    };
}
macro_rules! cmp_class {
    ($a:expr, $b:expr, $t:ty, $r:expr) => {
        $r.nontrivial(true);
        $r.class(if $a == $b { "equal" } else if $a < $b { "less" } else { "greater" });
        $r.class_if(($a as u128 >> (<$t>::BITS - 1)) & 1 != ($b as u128 >> (<$t>::BITS - 1)) & 1, "top-bits-differ");
    };
}
macro_rules! cmp_sec_u {
    ($c:expr, $T:ident, $t:ty) => {
        fn $T(c: &Bin, r: &mut Rec) -> Res {
            let (a, b) = (c.a.0 as $t, c.b.0 as $t);
            let (x, y) = ($T::classify(a), $T::classify(b));
            cmp_class!(a, b, $t, r);
            let m = |c: bool| -> $t { if c { !0 } else { 0 } };
            let d = |v: $T| v.declassify();
            eq("comp_eq", d(no_panic("comp_eq", || x.comp_eq(y))?), m(a == b))?;
            eq("comp_ne", d(x.comp_ne(y)), m(a != b))?;
            eq("comp_gte", d(x.comp_gte(y)), m(a >= b))?;
            eq("comp_gt", d(x.comp_gt(y)), m(a > b))?;
            eq("comp_lte", d(x.comp_lte(y)), m(a <= b))?;
            eq("comp_lt", d(x.comp_lt(y)), m(a < b))?;
            cmp_bm!(a, b, x, y, m, d);
            cmp_bool!(a, b, x, y);
            Ok(())
        }
        cmp_drive!($c, concat!("secret-", stringify!($T)), $t, $T);
    };
}
macro_rules! cmp_sec_i {
    ($c:expr, $T:ident, $t:ty) => {
        fn $T(c: &Bin, r: &mut Rec) -> Res {
            let (a, b) = (c.a.0 as $t, c.b.0 as $t);
            let (x, y) = ($T::classify(a), $T::classify(b));
            cmp_class!(a, b, $t, r);
            cmp_bool!(a, b, x, y);
            Ok(())
        }
        cmp_drive!($c, concat!("secret-", stringify!($T)), $t, $T);
    };
}
macro_rules! cmp_pub {
    ($c:expr, $n:ident, $t:ty) => {
        fn $n(c: &Bin, r: &mut Rec) -> Res {
            let (a, b) = (c.a.0 as $t, c.b.0 as $t);
            cmp_class!(a, b, $t, r);
            let m = |c: bool| -> $t { if c { !0 } else { 0 } };
            let d = |v: $t| v;
            cmp_bm!(a, b, a, b, m, d);
            cmp_bool!(a, b, a, b);
            Ok(())
        }
        cmp_drive!($c, concat!("public-", stringify!($t)), $t, $n);
    };
}
macro_rules! cmp_drive {
    ($c:expr, $name:expr, $t:ty, $f:ident) => {
        let bits = <$t>::BITS;
        if bits == 8 {
            $c.exhaust($name, all8(), $f);
        } else {
            $c.run($name, 150_000, 4_000_000, || bin(bits), $f);
        }
    };
}
#[allow(non_snake_case)]
fn c02(c: &mut Ctx) {
    c.rule("operand pairs per integer type biased to equal, adjacent, complementary and sign-differing operands (8-bit: all pairs); every pair is a non-trivial comparison, counted once per distinct pair");
    cmp_sec_u!(c, U8, u8);
    cmp_sec_u!(c, U16, u16);
    cmp_sec_u!(c, U32, u32);
    cmp_sec_u!(c, U64, u64);
    cmp_sec_u!(c, U128, u128);
    cmp_sec_i!(c, I8, i8);
    cmp_sec_i!(c, I16, i16);
    cmp_sec_i!(c, I32, i32);
    cmp_sec_i!(c, I64, i64);
    cmp_sec_i!(c, I128, i128);
    cmp_pub!(c, pu8, u8);
    cmp_pub!(c, pu16, u16);
    cmp_pub!(c, pu32, u32);
    cmp_pub!(c, pu64, u64);
    cmp_pub!(c, pu128, u128);
    cmp_pub!(c, pi8, i8);
    cmp_pub!(c, pi16, i16);
    cmp_pub!(c, pi32, i32);
    cmp_pub!(c, pi64, i64);
    cmp_pub!(c, pi128, i128);
}

// ---------------------------------------------------------------- C03
/// secret -> secret casts
macro_rules! cast_ss {
    ($a:expr, $r:expr, $F:ident, $f:ty, [$($T:ident, $t:ty);*]) => {{
        let a = $a as $f;
        $( {
            let got = no_panic("cast", || $T::from($F::classify(a)))?.declassify();
            eq(concat!(stringify!($F), "->", stringify!($T)), got, a as $t)?;
            $r.class_if((a as $t) as i128 as u128 != a as i128 as u128, "value-changing-cast");
        } )*
    }};
}
/// secret -> public casts (lossless by type)
macro_rules! cast_sp {
    ($a:expr, $F:ident, $f:ty, [$($t:ty),*]) => {{
        let a = $a as $f;
        $( eq(concat!(stringify!($F), "->", stringify!($t)), <$t>::from($F::classify(a)), a as $t)?; )*
    }};
}
/// public -> secret casts
macro_rules! cast_ps {
    ($a:expr, $f:ty, [$($T:ident, $t:ty);*]) => {{
        let a = $a as $f;
        $( eq(concat!(stringify!($f), "->", stringify!($T)), $T::from(a).declassify(), a as $t)?; )*
    }};
}
macro_rules! cls {
    ($a:expr, $T:ident, $t:ty, [$($f:ty),*]) => {{
        let a = $a as $t;
        eq("classify", $T::classify(a).declassify(), a)?;
        eq("trait classify", <$T as SecretInteger>::classify(a).declassify(), a)?;
        eq("From", $T::from(a).declassify(), a)?;
        eq("into", { let z: $T = a.into(); z.declassify() }, a)?;
        eq("from_literal", <$T as Integer>::from_literal($a).declassify(), a)?;
        eq("public from_literal", <$t as Integer>::from_literal($a), a)?;
        $( eq(concat!("classify from ", stringify!($f)), $T::classify($a as $f).declassify(), ($a as $f) as $t)?; )*
        eq("display", format!("{}", $T::classify(a)), format!("{}", a))?;
        eq("debug", format!("{:?}", $T::classify(a)), format!("{}", a))?;
        eq("lowerhex", format!("{:x} {:#x} {:08x}", $T::classify(a), $T::classify(a), $T::classify(a)), format!("{:x} {:#x} {:08x}", a, a, a))?;
    }};
}
fn cast_case(c: &Bin, r: &mut Rec) -> Res {
    let a = c.a.0;
    r.nontrivial(a > 0xff);
    r.class(match a.checked_ilog2().map(|k| k + 1).unwrap_or(0) {
        0..=8 => "<=8 bits",
        9..=16 => "9..16 bits",
        17..=32 => "17..32 bits",
        33..=64 => "33..64 bits",
        _ => ">64 bits",
    });
    cast_ss!(a, r, U8, u8, [U16, u16; U32, u32; U64, u64; U128, u128; I8, i8]);
    cast_ss!(a, r, U16, u16, [U8, u8; U32, u32; U64, u64; U128, u128; I16, i16]);
    cast_ss!(a, r, U32, u32, [U8, u8; U16, u16; U64, u64; U128, u128; I32, i32]);
    cast_ss!(a, r, U64, u64, [U8, u8; U16, u16; U32, u32; U128, u128; I64, i64]);
    cast_ss!(a, r, U128, u128, [U8, u8; U16, u16; U32, u32; U64, u64; I128, i128]);
    cast_ss!(a, r, I8, i8, [I16, i16; I32, i32; I64, i64; I128, i128; U8, u8]);
    cast_ss!(a, r, I16, i16, [I8, i8; I32, i32; I64, i64; I128, i128; U16, u16]);
    cast_ss!(a, r, I32, i32, [I8, i8; I16, i16; I64, i64; I128, i128; U32, u32]);
    cast_ss!(a, r, I64, i64, [I8, i8; I16, i16; I32, i32; I128, i128; U64, u64]);
    cast_ss!(a, r, I128, i128, [I8, i8; I16, i16; I32, i32; I64, i64; U128, u128]);
    cast_sp!(a, U8, u8, [u8, u16, u32, u64, u128, usize]);
    cast_sp!(a, U16, u16, [u16, u32, u64, u128]);
    cast_sp!(a, U32, u32, [u32, u64, u128]);
    cast_sp!(a, U64, u64, [u64, u128]);
    cast_sp!(a, U128, u128, [u128]);
    cast_ps!(a, u8, [U8, u8; U16, u16; U32, u32; U64, u64; U128, u128]);
    cast_ps!(a, u16, [U16, u16; U32, u32; U64, u64; U128, u128]);
    cast_ps!(a, u32, [U32, u32; U64, u64; U128, u128]);
    cast_ps!(a, u64, [U64, u64; U128, u128]);
    cast_ps!(a, usize, [U8, u8; U64, u64; U128, u128]);
    cls!(a, U8, u8, [u8]);
    cls!(a, U16, u16, [u8, u16]);
    cls!(a, U32, u32, [u8, u16, u32]);
    cls!(a, U64, u64, [u8, u16, u32, u64]);
    cls!(a, U128, u128, [u8, u16, u32, u64, u128]);
    cls!(a, I8, i8, [i8]);
    cls!(a, I16, i16, [i8, i16, u8]);
    cls!(a, I32, i32, [i8, i16, i32, u16]);
    cls!(a, I64, i64, [i8, i16, i32, i64, u32]);
    cls!(a, I128, i128, [i8, i16, i32, i64, i128, u64]);
    Ok(())
}
fn c03(c: &mut Ctx) {
    c.rule("128-bit patterns biased to every width boundary, each pushed through all conversions; non-trivial: the pattern does not fit 8 bits so at least one conversion is lossy");
    c.run("casts", 300_000, 8_000_000, || bin(128), cast_case);
    c.exhaust("casts-16-bit", (0..65536u128).map(|a| Bin { a: W(a), b: W(0), s: 0 }), cast_case);
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Words {
    w: Vec<W>,
    extra: usize,
}
fn words(bits: u32) -> impl Strategy<Value = Words> {
    (prop_oneof![prop::collection::vec(word(bits), 1..2), prop::collection::vec(word(bits), 0..9)], 0usize..(bits as usize / 8))
        .prop_map(|(w, extra)| Words { w, extra })
}
/// Sequences of many words: a few hundred, rarely tens of thousands.
fn many_words(bits: u32) -> impl Strategy<Value = Words> {
    let n = prop_oneof![4 => 9..70usize, 4 => 70..270usize, 2 => 270..1100usize, 1 => 65_530..65_545usize];
    (prop::collection::vec(word(bits), 1..12), n, any::<u64>(), 0usize..(bits as usize / 8)).prop_map(move |(few, n, mut z, extra)| {
        let w = (0..n)
            .map(|_| {
                z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let x = (z >> 32) as u128;
                if z >> 61 == 0 { few[x as usize % few.len()].clone() } else { W((x | x << 32 | x << 64 | x << 96) & (u128::MAX >> (128 - bits))) }
            })
            .collect();
        Words { w, extra }
    })
}
fn sec(v: &[u8]) -> Vec<U8> {
    v.iter().map(|x| U8(*x)).collect()
}
fn dec(v: &[U8]) -> Vec<u8> {
    v.iter().map(|x| x.0).collect()
}
macro_rules! slice_bytes {
    ($T:ident, $t:ty, $c:expr) => {{
        let v: Vec<$t> = $c.w.iter().map(|x| x.0 as $t).collect();
        let s: Vec<$T> = v.iter().map(|x| $T::classify(*x)).collect();
        let le: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
        let be: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect();
        eq("to_le_bytes", dec(&$T::to_le_bytes(&s)), le.clone())?;
        eq("to_be_bytes", dec(&$T::to_be_bytes(&s)), be.clone())?;
        let f = |r: Vec<$T>| r.iter().map(|x| x.declassify()).collect::<Vec<$t>>();
        eq("from_le_bytes", f($T::from_le_bytes(&sec(&le))), v.clone())?;
        eq("from_be_bytes", f($T::from_be_bytes(&sec(&be))), v.clone())?;
        // a length that is not a multiple of the width is rejected
        if $c.extra > 0 {
            let mut l2 = sec(&le);
            l2.extend(vec![U8(1); $c.extra]);
            must_panic("from_le_bytes(bad length)", || f($T::from_le_bytes(&l2)))?;
            must_panic("from_be_bytes(bad length)", || f($T::from_be_bytes(&l2)))?;
        }
    }};
}
macro_rules! trait_bytes {
    ($T:ident, $t:ty, $c:expr) => {{
        for x in &$c.w {
            let x = x.0 as $t;
            let (le, be) = (x.to_le_bytes().to_vec(), x.to_be_bytes().to_vec());
            let sx = $T::classify(x);
            let svec = |s: Seq<U8>| (0..s.len()).map(|i| s[i].0).collect::<Vec<u8>>();
            let pvec = |s: Seq<u8>| (0..s.len()).map(|i| s[i]).collect::<Vec<u8>>();
            eq("secret to_le", svec(UnsignedSecretInteger::to_le_bytes(sx)), le.clone())?;
            eq("secret to_be", svec(UnsignedSecretInteger::to_be_bytes(sx)), be.clone())?;
            let sle = Seq::<U8>::from_vec(sec(&le));
            let sbe = Seq::<U8>::from_vec(sec(&be));
            eq("secret from_le", <$T as UnsignedSecretInteger>::from_le_bytes(&sle).declassify(), x)?;
            eq("secret from_be", <$T as UnsignedSecretInteger>::from_be_bytes(&sbe).declassify(), x)?;
            eq("public to_le", pvec(UnsignedPublicInteger::to_le_bytes(x)), le.clone())?;
            eq("public to_be", pvec(UnsignedPublicInteger::to_be_bytes(x)), be.clone())?;
            eq("public from_le", <$t as UnsignedPublicInteger>::from_le_bytes(&Seq::<u8>::from_vec(le.clone())), x)?;
            eq("public from_be", <$t as UnsignedPublicInteger>::from_be_bytes(&Seq::<u8>::from_vec(be.clone())), x)?;
            // any other length is refused, shorter or longer
            for bad in [0, le.len() - 1, le.len() / 2, le.len() + 1, le.len() * 2, le.len() + $c.extra] {
                if bad == le.len() { continue; }
                let mut v = le.clone();
                v.resize(bad, le[0]);
                let s = Seq::<U8>::from_vec(sec(&v));
                let p = Seq::<u8>::from_vec(v);
                must_panic("secret from_le of another length", || <$T as UnsignedSecretInteger>::from_le_bytes(&s).declassify())?;
                must_panic("secret from_be of another length", || <$T as UnsignedSecretInteger>::from_be_bytes(&s).declassify())?;
                must_panic("public from_le of another length", || <$t as UnsignedPublicInteger>::from_le_bytes(&p))?;
                must_panic("public from_be of another length", || <$t as UnsignedPublicInteger>::from_be_bytes(&p))?;
            }
            for i in 0..le.len() {
                eq("get_byte", no_panic("get_byte", || sx.get_byte(i as u32))?.declassify(), le[i] as $t)?;
            }
        }
    }};
}
macro_rules! free_bytes {
    ($T:ident, $t:ident, $c:expr, $SW:ident, $PW:ident, $n:expr, $a:ident, $b:ident, $d:ident, $e:ident, $f:ident, $g:ident, $h:ident, $i:ident) => {{
        for x in &$c.w {
            let x = x.0 as $t;
            let (le, be) = (x.to_le_bytes(), x.to_be_bytes());
            let sx = $T::classify(x);
            eq(stringify!($a), dec(&hp::$a(sx).0), le.to_vec())?;
            eq(stringify!($b), dec(&hp::$b(sx).0), be.to_vec())?;
            eq(stringify!($d), hp::$d(hp::$SW::from_public_slice(&le)).declassify(), x)?;
            eq(stringify!($e), hp::$e(hp::$SW::from_public_slice(&be)).declassify(), x)?;
            eq(stringify!($f), hp::$f(x).0, le)?;
            eq(stringify!($g), hp::$g(x).0, be)?;
            eq(stringify!($h), hp::$h(hp::$PW::from_array(le)), x)?;
            eq(stringify!($i), hp::$i(hp::$PW::from_array(be)), x)?;
        }
    }};
}
fn cl(c: &Words, r: &mut Rec) {
    r.nontrivial(c.w.iter().any(|x| x.0 > 0xff) || c.w.len() > 1);
    r.class(match c.w.len() { n @ 0..=8 => format!("words={}", n), 9..=255 => "words=9..255".into(), 256..=65_535 => "words=256..65535".into(), _ => "words>=65536".into() });
    r.class_if(c.extra > 0, "ragged-length");
}

array!(A8, 5, U8);
array!(A16, 5, U16);
array!(A32, 5, U32);
array!(A64, 5, U64);
array!(A128, 5, U128);
public_bytes!(PBytes16, 16);
public_bytes!(PBytes32, 32);
public_bytes!(PBytes48, 48);
public_bytes!(PBytes64, 64);
bytes!(Bytes16, 16);
bytes!(Bytes32, 32);
bytes!(Bytes64, 64);
bytes!(Bytes48, 48);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Buf {
    b: B,
}

macro_rules! arr_words {
    ($A:ident, $P:ident, $b:expr) => {{
        let v = $b;
        let a = $A::from_public_slice(v);
        let u32s = a.to_be_U32s();
        eq("to_be_U32s", (0..u32s.len()).map(|i| u32s[i].0).collect::<Vec<_>>(), v.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect())?;
        let u32s = a.to_le_U32s();
        eq("to_le_U32s", (0..u32s.len()).map(|i| u32s[i].0).collect::<Vec<_>>(), v.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())?;
        let u64s = a.to_be_U64s();
        eq("to_be_U64s", (0..u64s.len()).map(|i| u64s[i].0).collect::<Vec<_>>(), v.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect())?;
        let u64s = a.to_le_U64s();
        eq("to_le_U64s", (0..u64s.len()).map(|i| u64s[i].0).collect::<Vec<_>>(), v.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())?;
        let u128s = a.to_U128s_be();
        eq("to_be_U128s", (0..u128s.len()).map(|i| u128s[i].0).collect::<Vec<_>>(), v.chunks(16).map(|c| u128::from_be_bytes(c.try_into().unwrap())).collect())?;
        let u128s = a.to_U128s_le();
        eq("to_le_U128s", (0..u128s.len()).map(|i| u128s[i].0).collect::<Vec<_>>(), v.chunks(16).map(|c| u128::from_le_bytes(c.try_into().unwrap())).collect())?;
        let p = $P::from_slice(v);
        macro_rules! pw { ($m:ident, $t:ty, $w:expr, $f:ident) => {{ let q = p.$m(); eq(stringify!($m), (0..q.len()).map(|i| q[i]).collect::<Vec<$t>>(), v.chunks($w).map(|c| <$t>::$f(c.try_into().unwrap())).collect())?; }} }
        pw!(to_be_u32s, u32, 4, from_be_bytes);
        pw!(to_le_u32s, u32, 4, from_le_bytes);
        pw!(to_be_u64s, u64, 8, from_be_bytes);
        pw!(to_le_u64s, u64, 8, from_le_bytes);
        pw!(to_u128s_be, u128, 16, from_be_bytes);
        pw!(to_u128s_le, u128, 16, from_le_bytes);
    }};
}
macro_rules! wide_arr {
    ($A:ident, $T:ident, $t:ident, $n:expr, $c:expr) => {{
        let mut v: Vec<$t> = $c.w.iter().map(|x| x.0 as $t).collect();
        v.resize($n, 0);
        let a = $A::from_public_slice(&v);
        let b = |s: Seq<U8>| (0..s.len()).map(|i| s[i].0).collect::<Vec<u8>>();
        eq("array to_be_bytes", b(a.to_be_bytes()), v.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect())?;
        eq("array to_le_bytes", b(a.to_le_bytes()), v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect())?;
    }};
}

fn c04(c: &mut Ctx) {
    c.rule("words of each width (boundary-biased, 0 to 8 of them) and byte buffers; encoded/decoded through every API in both byte orders and compared with the standard library; non-trivial: a multi-byte value or several words");
    macro_rules! slc { ($T:ident, $t:ident) => { c.run(concat!("slice-", stringify!($T)), 25_000, 500_000, || words(<$t>::BITS), |c: &Words, r: &mut Rec| { cl(c, r); slice_bytes!($T, $t, c); Ok(()) }); } }
    slc!(U8, u8);
    slc!(U16, u16);
    slc!(U32, u32);
    slc!(U64, u64);
    slc!(U128, u128);
    slc!(I8, i8);
    slc!(I16, i16);
    slc!(I32, i32);
    slc!(I64, i64);
    slc!(I128, i128);
    macro_rules! many { ($T:ident, $t:ident) => { c.run(concat!("many-", stringify!($T)), 60, 1_500, || many_words(<$t>::BITS), |c: &Words, r: &mut Rec| { cl(c, r); slice_bytes!($T, $t, c); Ok(()) }); } }
    many!(U8, u8);
    many!(U16, u16);
    many!(U32, u32);
    many!(U64, u64);
    many!(U128, u128);
    many!(I8, i8);
    many!(I16, i16);
    many!(I32, i32);
    many!(I64, i64);
    many!(I128, i128);
    macro_rules! tr { ($T:ident, $t:ident) => { c.run(concat!("trait-", stringify!($T)), 25_000, 500_000, || words(<$t>::BITS), |c: &Words, r: &mut Rec| { cl(c, r); trait_bytes!($T, $t, c); Ok(()) }); } }
    tr!(U8, u8);
    tr!(U16, u16);
    tr!(U32, u32);
    tr!(U64, u64);
    tr!(U128, u128);
    c.run("free-16", 25_000, 500_000, || words(16), |c: &Words, r: &mut Rec| {
        cl(c, r);
        free_bytes!(U16, u16, c, U16Word, u16Word, 2, U16_to_le_bytes, U16_to_be_bytes, U16_from_le_bytes, U16_from_be_bytes, u16_to_le_bytes, u16_to_be_bytes, u16_from_le_bytes, u16_from_be_bytes);
        Ok(())
    });
    c.run("free-32", 25_000, 500_000, || words(32), |c: &Words, r: &mut Rec| {
        cl(c, r);
        free_bytes!(U32, u32, c, U32Word, u32Word, 4, U32_to_le_bytes, U32_to_be_bytes, U32_from_le_bytes, U32_from_be_bytes, u32_to_le_bytes, u32_to_be_bytes, u32_from_le_bytes, u32_from_be_bytes);
        Ok(())
    });
    c.run("free-64", 25_000, 500_000, || words(64), |c: &Words, r: &mut Rec| {
        cl(c, r);
        free_bytes!(U64, u64, c, U64Word, u64Word, 8, U64_to_le_bytes, U64_to_be_bytes, U64_from_le_bytes, U64_from_be_bytes, u64_to_le_bytes, u64_to_be_bytes, u64_from_le_bytes, u64_from_be_bytes);
        Ok(())
    });
    c.run("free-128", 25_000, 500_000, || words(128), |c: &Words, r: &mut Rec| {
        cl(c, r);
        free_bytes!(U128, u128, c, U128Word, u128Word, 16, U128_to_le_bytes, U128_to_be_bytes, U128_from_le_bytes, U128_from_be_bytes, u128_to_le_bytes, u128_to_be_bytes, u128_from_le_bytes, u128_from_be_bytes);
        Ok(())
    });
    macro_rules! wa { ($A:ident, $T:ident, $t:ident) => { c.run(concat!("array-", stringify!($T)), 25_000, 500_000, || words(<$t>::BITS), |c: &Words, r: &mut Rec| { cl(c, r); wide_arr!($A, $T, $t, 5, c); Ok(()) }); } }
    wa!(A8, U8, u8);
    wa!(A16, U16, u16);
    wa!(A32, U32, u32);
    wa!(A64, U64, u64);
    wa!(A128, U128, u128);
    c.run("byte-array-words", 25_000, 500_000, || prop_oneof![bytes_n(16), bytes_n(32), bytes_n(48), bytes_n(64)].prop_map(|b| Buf { b }), |c: &Buf, r: &mut Rec| {
        r.nontrivial(c.b.iter().any(|x| *x != c.b[0]));
        r.class(format!("len={}", c.b.len()));
        match c.b.len() {
            16 => arr_words!(Bytes16, PBytes16, &c.b[..]),
            32 => arr_words!(Bytes32, PBytes32, &c.b[..]),
            48 => arr_words!(Bytes48, PBytes48, &c.b[..]),
            _ => arr_words!(Bytes64, PBytes64, &c.b[..]),
        }
        Ok(())
    });
}

fn main() {
    main_with(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04)])
}
