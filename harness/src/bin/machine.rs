//! C10, C11: bit manipulation, masked selection and modular arithmetic on machine integers.
use hacspec::prelude::*;
use hacspec::*;
use num::{BigInt, Integer as NI};
use vh::big::Big;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    x: W,
    y: W,
    i: u32,
    j: u32,
    c: bool,
}
fn bits_case(bits: u32) -> impl Strategy<Value = Bits> {
    let ix = move || prop_oneof![6 => 0..bits, 1 => Just(0u32), 2 => Just(bits - 1), 1 => (0..bits / 8).prop_map(|k| k * 8)];
    (word2(bits), ix(), ix(), any::<bool>()).prop_map(|((x, y), i, j, c)| Bits { x, y, i, j, c })
}

macro_rules! bitops {
    ($c:expr, $name:expr, $T:ty, $t:ty, $cl:expr, $d:expr, $unsigned:tt) => {{
        let bits = <$t>::BITS;
        let check = |c: &Bits, r: &mut Rec| -> Res {
            let (a, b) = (c.x.0 as $t, c.y.0 as $t);
            let cl: fn($t) -> $T = $cl;
            let d: fn($T) -> $t = $d;
            let (x, y) = (cl(a), cl(b));
            let one: $t = 1;
            r.nontrivial(a != 0 && a != b && c.i > 0);
            r.class(if c.c { "condition-set" } else { "condition-clear" });
            let setb = |v: $t, s: bool, i: u32| if s { v | (one << i) } else { v & !(one << i) };
            let bit = |v: $t, i: u32| (v >> i) & 1 == 1;
            eq("NUM_BITS", <$T as Integer>::NUM_BITS, bits)?;
            eq("constants", [<$T as Integer>::ZERO, <$T as Integer>::ONE, <$T as Integer>::TWO].map(|k| d(k)), [0 as $t, 1, 2])?;
            for i in [c.i, 0, bits - 1] {
                eq("get_bit", d(no_panic("get_bit", || Integer::get_bit(x, i))?), bit(a, i) as u8 as $t)?;
                for s in [false, true] {
                    eq("set_bit", d(no_panic("set_bit", || Integer::set_bit(x, cl(s as u8 as $t), i))?), setb(a, s, i))?;
                }
                eq("set", d(no_panic("set", || Integer::set(x, i, y, c.j))?), setb(a, bit(b, c.j), i))?;
                eq("rotate_left", d(no_panic("rotate_left", || <$T as Integer>::rotate_left(x, i))?), a.rotate_left(i))?;
                eq("rotate_right", d(no_panic("rotate_right", || <$T as Integer>::rotate_right(x, i))?), a.rotate_right(i))?;
            }
            for s in [false, true] {
                let m = cl(if s { !0 } else { 0 });
                let pick = |p: $t, q: $t| if s { q } else { p };
                let (p, q) = no_panic("cswap", || cswap(x, y, m))?;
                eq("cswap", (d(p), d(q)), if s { (b, a) } else { (a, b) })?;
                let (p, q) = no_panic("cswap_bit", || cswap_bit(x, y, cl(s as u8 as $t)))?;
                eq("cswap_bit", (d(p), d(q)), if s { (b, a) } else { (a, b) })?;
                eq("cadd", d(no_panic("cadd", || cadd(x, y, m))?), pick(a, a.wrapping_add(b)))?;
                eq("csub", d(no_panic("csub", || csub(x, y, m))?), pick(a, a.wrapping_sub(b)))?;
                eq("cmul", d(no_panic("cmul", || cmul(x, y, m))?), pick(a, a.wrapping_mul(b)))?;
                let o = cl(c.c as u8 as $t);
                eq("cset_bit", d(no_panic("cset_bit", || cset_bit(x, o, c.i, m))?), pick(a, setb(a, c.c, c.i)))?;
            }
            if c.i == 0 {
                // a rotation by the width or more is refused
                for n in [bits, bits + 1 + c.j] {
                    must_panic("rotate_left by the width or more", || d(<$T as Integer>::rotate_left(x, n)))?;
                    must_panic("rotate_right by the width or more", || d(<$T as Integer>::rotate_right(x, n)))?;
                }
            }
            bitops!(@div $unsigned, x, y, a, b, d);
            Ok(())
        };
        if bits == 8 {
            $c.exhaust($name, (0..65536u128).map(|k| Bits { x: W(k & 255), y: W(k >> 8), i: ((k * 5 + (k >> 9)) % 8) as u32, j: ((k >> 3) % 8) as u32, c: (k >> 7) & 1 == 1 }), check);
        } else {
            $c.run($name, 40_000, 1_000_000, || bits_case(bits), check);
        }
    }};
    (@div true, $x:ident, $y:ident, $a:ident, $b:ident, $d:ident) => {
        if $b != 0 {
            let (q, r) = no_panic("ct_div", || ct_div($x, $y))?;
            eq("ct_div", ($d(q), $d(r)), ($a / $b, $a % $b))?;
        }
    };
    (@div false, $x:ident, $y:ident, $a:ident, $b:ident, $d:ident) => {};
}
fn c10(c: &mut Ctx) {
    c.rule("operand pairs, bit positions and conditions per integer type (8-bit types: all operand pairs); non-trivial: distinct non-zero operands and a bit position other than 0");
    macro_rules! both {
        ($T:ident, $t:ident, $u:tt) => {
            bitops!(c, concat!("public-", stringify!($t)), $t, $t, |v| v, |v| v, $u);
            bitops!(c, concat!("secret-", stringify!($T)), $T, $t, |v| $T::classify(v), |v| v.declassify(), $u);
        };
    }
    both!(U8, u8, true);
    both!(U16, u16, true);
    both!(U32, u32, true);
    both!(U64, u64, true);
    both!(U128, u128, true);
    both!(I8, i8, false);
    both!(I16, i16, false);
    both!(I32, i32, false);
    both!(I64, i64, false);
    both!(I128, i128, false);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mod {
    a: W,
    b: W,
    n: W,
}
fn mod_case(bits: u32, signed: bool) -> impl Strategy<Value = Mod> {
    let nb = if signed { bits - 1 } else { bits };
    (word2(bits), word(nb), 0..12u8, 0..bits).prop_map(move |((a, b), n, k, s)| {
        let m = mask(bits);
        let n = if n.0 == 0 { 1 } else { n.0 };
        // related: below the modulus, or small enough for sum and product
        let (a, b) = match k {
            0 | 1 => (a.0 % n, b.0 % n),
            2 | 3 | 4 => (a.0 & mask(bits / 2 - 1), b.0 & mask(bits / 2)),
            5 => (n.wrapping_sub(1) & m, b.0),
            6 => (a.0, n & m),
            7 => (a.0 >> s, b.0 >> (bits - 1 - s)),
            8 => ((n * 1).wrapping_add(1) & m, (n - 1) & m),
            _ => (a.0, b.0),
        };
        Mod { a: W(a), b: W(b), n: W(n) }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Power {
    a: W,
    e: u32,
}
/// Bases around the e-th root of the largest value (and its negative), so that the power is close to
/// the bound on either side.
fn power_case(bits: u32) -> impl Strategy<Value = Power> {
    (0..10u8, 0..=bits + 2, word(bits), -2..=2i128, any::<bool>(), 0..600u32).prop_map(move |(k, e, w, d, neg, far)| {
        let e1 = e.max(1);
        let top = (bits - (w.0 & 1) as u32) as f64;
        let root = (top / e1 as f64).exp2();
        let root = if root >= u64::MAX as f64 { w.0 as i128 } else { root as i128 };
        let a = match k {
            0 => (w.0 & 7) as i128,
            1 => 1i128.checked_shl((w.0 % (bits / e1).max(1) as u128) as u32).unwrap_or(1),
            2 | 3 => w.0 as i128,
            4 => (w.0 as i128 & 0xff) | 1,
            _ => root.wrapping_add(d),
        };
        let a = if neg { a.wrapping_neg() } else { a };
        Power { a: W(a as u128 & mask(bits)), e: match k { 2 => e % 5, 4 => far, _ => e } }
    })
}

macro_rules! modops {
    ($c:expr, $name:expr, $T:ty, $t:ty, $signed:expr, $secret:expr, $cl:expr, $d:expr) => {{
        let bits = <$t>::BITS;
        let check = |c: &Mod, r: &mut Rec| -> Res {
            let (a, b, n) = (c.a.0 as $t, c.b.0 as $t, c.n.0 as $t);
            let cl: fn($t) -> $T = $cl;
            let d: fn($T) -> $t = $d;
            let (x, y, m) = (cl(a), cl(b), cl(n));
            let (ba, bb, bn) = (BigInt::from(a), BigInt::from(b), BigInt::from(n));
            // signed operations compute in i128, unsigned ones in the type itself
            let fits = |v: &BigInt| if $signed { *v >= BigInt::from(i128::MIN) && *v <= BigInt::from(i128::MAX) } else { *v <= BigInt::from(<$t>::MAX) };
            let w = |v: BigInt| Big(v.mod_floor(&bn));
            let g = |v: $T| Big(BigInt::from(d(v)));
            r.nontrivial(&ba + &bb >= bn || a < b);
            r.class_if(a < b, "difference-negative");
            r.class_if(&ba * &bb >= bn && fits(&(&ba * &bb)), "product-wraps");
            r.class_if(ba >= bn || bb >= bn, "unreduced");
            r.class_if($signed && (ba < BigInt::from(0)), "negative-operand");
            eq("modulo", g(no_panic("modulo", || ModNumeric::modulo(x, m))?), w(ba.clone()))?;
            let s = &ba - &bb;
            if !$signed || fits(&s) {
                eq("sub_mod", g(no_panic("sub_mod", || ModNumeric::sub_mod(x, y, m))?), w(s))?;
            }
            let s = &ba + &bb;
            if fits(&s) {
                r.class("sum-judged");
                eq("add_mod", g(no_panic("add_mod", || ModNumeric::add_mod(x, y, m))?), w(s))?;
            }
            let s = &ba * &bb;
            if fits(&s) {
                r.class("product-judged");
                eq("mul_mod", g(no_panic("mul_mod", || ModNumeric::mul_mod(x, y, m))?), w(s))?;
            }
            Ok(())
        };
        $c.run($name, 50_000, 1_000_000, || mod_case(bits, $signed), check);
        // integer power: exact or refused for public integers, wrapping like `*` for secret ones
        let power = |p: &Power, r: &mut Rec| -> Res {
            let a = p.a.0 as $t;
            let cl: fn($t) -> $T = $cl;
            let d: fn($T) -> $t = $d;
            let exact = num::pow(BigInt::from(a), p.e as usize);
            let fits = exact >= BigInt::from(<$t>::MIN) && exact <= BigInt::from(<$t>::MAX);
            r.class(if fits { "power-fits" } else { "power-overflows" });
            r.nontrivial(p.e > 1 && a > 1 as $t);
            let w = if $secret {
                let m = exact.mod_floor(&(BigInt::from(1) << bits as usize));
                Some(u128::from_str_radix(&m.to_str_radix(16), 16).unwrap() as $t)
            } else if fits {
                Some(exact.to_string().parse::<$t>().unwrap())
            } else {
                None
            };
            exact_or_panic("integer power", w, || d(NumericBase::pow(cl(a), p.e)))
        };
        let pname: String = format!("pow-{}", $name);
        if bits == 8 {
            $c.exhaust(&pname, (0..256u128 * 24).map(|k| Power { a: W(k & 255), e: (k >> 8) as u32 }), power);
        } else {
            $c.run(&pname, 10_000, 200_000, || power_case(bits), power);
        }
        // inverse
        let half = (bits - if $signed { 1 } else { 0 }) / 2;
        let inv = |c: &Mod, r: &mut Rec| -> Res {
            let (a, n) = (c.a.0 as $t, c.n.0 as $t);
            let cl: fn($t) -> $T = $cl;
            let d: fn($T) -> $t = $d;
            let (ba, bn) = (BigInt::from(a), BigInt::from(n));
            let coprime = ba.gcd(&bn) == BigInt::from(1);
            r.class(if coprime { "invertible" } else { "not-invertible" });
            r.nontrivial(a > 1);
            if !coprime {
                return must_panic("inverse of a non-invertible element", || d(NumericBase::inv(cl(a), cl(n))));
            }
            let i = d(no_panic("inv", || NumericBase::inv(cl(a), cl(n)))?);
            ensure(i >= 0 as $t && i < n, || format!("inverse {} of {} mod {} is not canonical", i, a, n))?;
            eq("a*inv(a) mod n", Big((ba * BigInt::from(i)).mod_floor(&bn)), Big(BigInt::from(1)))
        };
        let iname: String = format!("inv-{}", $name);
        if bits <= 16 {
            $c.exhaust(&iname, (2..1u128 << half).flat_map(|n| (1..n).map(move |a| Mod { a: W(a), b: W(0), n: W(n) })), inv);
        } else {
            $c.run(&iname, 20_000, 400_000, || (word(half), word(half), 0..8u8, 2..100u128).prop_map(|(a, n, k, f)| {
                let n = if n.0 < 2 { 2 } else { n.0 };
                let a = match k { 0 => n - 1, 1 => (n - 1) / 2, 2 => n / 2 + 1, 3 => n / f, 4 => (n / f).wrapping_mul(f), _ => a.0 } % n;
                Mod { a: W(if a == 0 { 1 } else { a }), b: W(0), n: W(n) }
            }), inv);
        }
    }};
}
fn c11(c: &mut Ctx) {
    c.rule("operands and positive modulus per integer type, with operands below the modulus, unreduced, and small enough for the intermediate to fit; inverses with n*n representable (all pairs for 8- and 16-bit types); powers with bases around the root of the bound (8-bit: all bases, exponents below 24); non-trivial: a+b reaches n, a<b, or (inverse, power) a>1");
    macro_rules! both {
        ($T:ident, $t:ident, $s:expr) => {
            modops!(c, concat!("public-", stringify!($t)), $t, $t, $s, false, |v| v, |v| v);
            modops!(c, concat!("secret-", stringify!($T)), $T, $t, $s, true, |v| $T::classify(v), |v| v.declassify());
        };
    }
    both!(U8, u8, false);
    both!(U16, u16, false);
    both!(U32, u32, false);
    both!(U64, u64, false);
    both!(U128, u128, false);
    both!(I8, i8, true);
    both!(I16, i16, true);
    both!(I32, i32, true);
    both!(I64, i64, true);
    both!(I128, i128, true);
}

fn main() {
    main_with(&[("C10", c10), ("C11", c11)])
}
