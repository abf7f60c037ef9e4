//! C16..C18: polynomials over Z, Z_n and quotient rings, against big-integer polynomials.
use hacspec::prelude::*;
use hacspec::*;
use num::{BigInt, Integer as NI, One, Signed as _, ToPrimitive, Zero};
use vh::big::*;
use vh::*;

// ---------------------------------------------------------------- reference polynomials
type P = Vec<BigInt>;
fn trim(mut p: P) -> P {
    while p.last().map_or(false, |c| c.is_zero()) {
        p.pop();
    }
    p
}
fn red(p: P, n: &BigInt) -> P {
    trim(if n.is_zero() { p } else { p.into_iter().map(|c| c.mod_floor(n)).collect() })
}
fn padd(a: &P, b: &P, s: i32) -> P {
    (0..a.len().max(b.len())).map(|i| a.get(i).cloned().unwrap_or_default() + BigInt::from(s) * b.get(i).cloned().unwrap_or_default()).collect()
}
fn pmul(a: &P, b: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![BigInt::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += x * y;
        }
    }
    o
}
fn inv_mod(a: &BigInt, n: &BigInt) -> Option<BigInt> {
    let e = a.mod_floor(n).extended_gcd(n);
    if e.gcd.is_one() {
        Some(e.x.mod_floor(n))
    } else {
        None
    }
}
/// Long division; None when a leading quotient does not exist.
fn pdivrem(a: &P, b: &P, n: &BigInt) -> Option<(P, P)> {
    let (mut r, b) = (red(a.clone(), n), red(b.clone(), n));
    let bl = b.last()?.clone();
    let mut q = vec![BigInt::zero(); r.len()];
    while r.len() >= b.len() {
        let k = r.len() - b.len();
        let top = r.last().unwrap().clone();
        let c = if n.is_zero() {
            if !(&top % &bl).is_zero() {
                return None;
            }
            &top / &bl
        } else {
            (top * inv_mod(&bl, n)?).mod_floor(n)
        };
        q[k] = c.clone();
        let mut s = vec![BigInt::zero(); k];
        s.extend(b.iter().map(|x| x * &c));
        let l = r.len();
        r = padd(&r, &s, -1);
        r.truncate(l - 1);
        r = red(r, n);
    }
    Some((trim(q), r))
}
fn pgcd(a: &P, b: &P, n: &BigInt) -> P {
    let (mut a, mut b) = (red(a.clone(), n), red(b.clone(), n));
    while !b.is_empty() {
        let r = pdivrem(&a, &b, n).expect("prime modulus").1;
        a = b;
        b = r;
    }
    a
}

// ---------------------------------------------------------------- elements
trait PE: Numeric + Copy {
    const BITS: u32;
    const SIGNED: bool;
    fn of(x: &BigInt) -> Self;
    fn big(self) -> BigInt;
    fn max() -> BigInt {
        pow2(Self::BITS as usize - Self::SIGNED as usize) - 1
    }
    fn min() -> BigInt {
        if Self::SIGNED { -pow2(Self::BITS as usize - 1) } else { BigInt::zero() }
    }
    fn fits(x: &BigInt) -> bool {
        *x <= Self::max() && *x >= Self::min()
    }
    /// range of the intermediate results of the modular operations
    fn inter(x: &BigInt) -> bool {
        if Self::SIGNED { x.abs() < pow2(127) } else { *x <= Self::max() && *x >= BigInt::zero() }
    }
}
macro_rules! pe { ($($t:ident $to:ident $s:expr),*) => {$(impl PE for $t {
    const BITS: u32 = <$t>::BITS; const SIGNED: bool = $s;
    fn of(x: &BigInt) -> Self { x.$to().expect("fits") as $t }
    fn big(self) -> BigInt { BigInt::from(self) }
})*} }
pe!(u8 to_u128 false, u16 to_u128 false, u32 to_u128 false, u64 to_u128 false, u128 to_u128 false,
    i8 to_i128 true, i16 to_i128 true, i32 to_i128 true, i64 to_i128 true, i128 to_i128 true);
macro_rules! pes { ($($T:ident $t:ident $to:ident $s:expr),*) => {$(impl PE for $T {
    const BITS: u32 = <$t>::BITS; const SIGNED: bool = $s;
    fn of(x: &BigInt) -> Self { $T::classify(x.$to().expect("fits") as $t) }
    fn big(self) -> BigInt { BigInt::from(self.declassify()) }
})*} }
pes!(U8 u8 to_u128 false, U16 u16 to_u128 false, I8 i8 to_i128 true, I16 i16 to_i128 true, I32 i32 to_i128 true, I128 i128 to_i128 true, U32 u32 to_u128 false, U64 u64 to_u128 false, U128 u128 to_u128 false, I64 i64 to_i128 true);

fn v<T: PE>(p: &[Big]) -> Vec<T> {
    p.iter().map(|c| T::of(&c.0)).collect()
}
fn r(p: &[Big]) -> P {
    p.iter().map(|c| c.0.clone()).collect()
}
fn back<T: PE>(p: &[T]) -> Vec<Big> {
    trim(p.iter().map(|c| c.big()).collect()).into_iter().map(Big).collect()
}
fn bigs(p: P) -> Vec<Big> {
    p.into_iter().map(Big).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    x: Vec<Big>,
    y: Vec<Big>,
    n: Big,
}

/// Coefficients up to `m` in absolute value, sparse or dense.
fn coeffs(m: BigInt, signed: bool, len: impl Into<prop::collection::SizeRange>, sparse: bool) -> impl Strategy<Value = Vec<Big>> {
    let z = if sparse { 4 } else { 0 };
    prop::collection::vec(prop_oneof![1 + z => Just(Big(BigInt::zero())), 6 => signed_upto(m, signed)], len)
}
/// Moduli within `max`, biased to primes, tiny and maximal ones. 0 stands for no modulus.
fn modulus(max: BigInt) -> impl Strategy<Value = Big> {
    let (m1, m2) = (max.clone(), max.clone());
    prop_oneof![
        2 => Just(Big(BigInt::zero())),
        3 => prop::sample::select(vec![2u32, 3, 5, 7, 11, 13, 31, 61, 127]).prop_map(move |p| Big(BigInt::from(p).min(m1.clone()))),
        2 => upto(max).prop_map(|b| Big(b.0.max(BigInt::one()))),
        2 => (0..20u32).prop_map(move |d| Big((&m2 - BigInt::from(d)).max(BigInt::from(2)))),
    ]
}
fn case<T: PE>() -> impl Strategy<Value = Case> {
    let full = T::max();
    let half = if T::SIGNED && T::BITS < 128 { full.clone() } else { full.sqrt() };
    // coefficient budgets: full width (additions), half width (products), small (sums of products)
    let budget = prop_oneof![2 => Just(full), 3 => Just(half.clone()), 3 => Just(half >> 3usize), 1 => Just(BigInt::from(3))];
    budget.prop_flat_map(|b| {
        let b = b.max(BigInt::from(3));
        (modulus(b.clone()), Just(b), any::<bool>(), any::<bool>(), 0..6u8)
    })
    .prop_flat_map(|(n, b, sx, sy, k)| {
        // mostly coefficients below the modulus
        let m = if n.0.is_zero() || k == 0 { b } else { (&n.0 - 1u32).max(BigInt::one()) };
        (coeffs(m.clone(), T::SIGNED, 0..12, sx), coeffs(m, T::SIGNED, 0..12, sy), Just(n), 0..10u8)
    })
    .prop_map(|(x, y, n, k)| {
        let y = match k { 0 => x.clone(), 1 if T::SIGNED => x.iter().map(|c| Big(-&c.0)).collect(), 2 => x.iter().rev().cloned().collect(), _ => y };
        Case { x, y, n }
    })
}

/// Hundreds of coefficients.
fn long_case<T: PE>() -> impl Strategy<Value = Case> {
    let len = || prop_oneof![2 => 12..70usize, 2 => 120..140usize, 2 => 250..262usize, 1 => 0..6usize, 1 => 262..400usize];
    // products of this many terms must fit when there is no modulus
    let b = if T::BITS == 8 { BigInt::from(11) } else { (T::max() >> 9usize).sqrt() };
    (modulus(b.clone()), any::<bool>(), any::<bool>(), len(), len()).prop_flat_map(move |(n, sx, sy, lx, ly)| {
        let m = if n.0.is_zero() { if T::BITS == 8 { BigInt::one() } else { b.clone() } } else { (&n.0 - 1u32).max(BigInt::one()) };
        (coeffs(m.clone(), T::SIGNED, lx, sx), coeffs(m, T::SIGNED, ly, sy), Just(n))
    })
    .prop_map(|(x, y, n)| Case { x, y, n })
}

fn c16_one<T: PE>(c: &Case, rec: &mut Rec) -> Res {
    let (x, y, n) = (r(&c.x), r(&c.y), &c.n.0);
    let z = n.is_zero();
    let (xv, yv, nv): (Vec<T>, Vec<T>, T) = (v(&c.x), v(&c.y), T::of(n));
    rec.class(if z { "over Z" } else { "over Z_n" });
    rec.class_if(x.len() != y.len(), "different lengths");
    let zip: Vec<(BigInt, BigInt)> = (0..x.len().max(y.len())).map(|i| (x.get(i).cloned().unwrap_or_default(), y.get(i).cloned().unwrap_or_default())).collect();
    // sums
    if zip.iter().all(|(a, b)| if z { T::fits(&(a + b)) } else { T::inter(&(a + b)) }) {
        rec.class("sum-judged");
        eq("poly_add", back(&no_panic("poly_add", || poly_add(&xv, &yv, nv))?), bigs(red(padd(&x, &y, 1), n)))?;
    }
    if zip.iter().all(|(a, b)| if z { T::fits(&(a - b)) } else { T::SIGNED && T::inter(&(a - b)) || !T::SIGNED }) {
        rec.class("difference-judged");
        eq("poly_sub", back(&no_panic("poly_sub", || poly_sub(&xv, &yv, nv))?), bigs(red(padd(&x, &y, -1), n)))?;
    }
    let terms_fit = x.iter().all(|a| y.iter().all(|b| if z { T::fits(&(a * b)) } else { T::inter(&(a * b)) }));
    let abs = |p: &P| -> P { p.iter().map(|c| c.abs()).collect() };
    let sums_fit = if z { pmul(&abs(&x), &abs(&y)).iter().all(|c| T::fits(c)) } else { T::inter(&(n * 2u32)) };
    if terms_fit && sums_fit {
        rec.class("product-judged");
        let w = red(pmul(&x, &y), n);
        rec.nontrivial(w.len() >= 2);
        rec.class_if(!z && x.iter().chain(&y).any(|c| *c >= *n || c.is_negative()), "unreduced-operand");
        eq("poly_mul", back(&no_panic("poly_mul", || poly_mul(&xv, &yv, nv))?), bigs(w))?;
    }
    // degree and leading coefficient
    let t = trim(x.clone());
    let w = if t.is_empty() { (0, Big(BigInt::zero())) } else { (t.len() - 1, Big(t[t.len() - 1].clone())) };
    let (d, l) = no_panic("leading_coefficient", || leading_coefficient(&xv))?;
    eq("leading_coefficient", (d, Big(l.big())), w)
}
fn c16(c: &mut Ctx) {
    c.rule("two coefficient vectors of length 0..12 over one of ten public or ten secret integer types, with no modulus, a prime or another one; an operation is judged when its intermediate results are representable; non-trivial: a product of degree >= 1 was judged");
    macro_rules! t { ($($t:ident),*) => {$( c.run(stringify!($t), 12_000, 300_000, case::<$t>, c16_one::<$t>); )*} }
    t!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128);
    macro_rules! l { ($($t:ident),*) => {$( c.run(concat!("long-", stringify!($t)), 30, 1_000, long_case::<$t>, c16_one::<$t>); )*} }
    l!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, U32, U64, U128, I64);
}

// ---------------------------------------------------------------- C17: division
const PRIMES: [u64; 14] = [2, 3, 5, 7, 11, 13, 31, 61, 127, 251, 3329, 65521, 8380417, 2147483647];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DivCase {
    x: Vec<Big>,
    y: Vec<Big>,
    n: Big,
}
fn modpoly_div<T: PE>() -> impl Strategy<Value = DivCase> {
    modpoly_div_of::<T>(1..14, 1..10, 6)
}
/// Dividends of hundreds of coefficients.
fn modpoly_div_long<T: PE>() -> impl Strategy<Value = DivCase> {
    prop_oneof![modpoly_div_of::<T>(14..280, 1..140, 130), modpoly_div_of::<T>(250..300, 1..12, 260), modpoly_div_of::<T>(1..300, 1..300, 20)]
}
fn modpoly_div_of<T: PE>(lx: std::ops::Range<usize>, ly: std::ops::Range<usize>, lq: usize) -> impl Strategy<Value = DivCase> {
    // n*n must be representable: quotients are formed as coefficient * inverse
    let lim = if T::SIGNED { T::max() } else { T::max() };
    let ps: Vec<u64> = PRIMES.iter().copied().filter(|p| { let n = BigInt::from(*p); &n * &n * &n <= lim }).collect();
    let comp: Vec<u64> = [4u64, 6, 9, 10, 15, 16, 35, 256, 1000, 4096, 65536].iter().copied().filter(|p| { let n = BigInt::from(*p); &n * &n * &n <= lim }).collect();
    let comp = if comp.is_empty() { vec![4] } else { comp };
    let ps = if ps.is_empty() { vec![2, 3, 5] } else { ps };
    (prop_oneof![6 => prop::sample::select(ps), 2 => prop::sample::select(comp)], 0..4u8, any::<bool>())
        .prop_flat_map(move |(n, k, sp)| {
            let m: BigInt = BigInt::from(n) - 1;
            (coeffs(m.clone(), false, lx.clone(), sp), coeffs(m.clone(), false, ly.clone(), sp), coeffs(m, false, 0..lq, false), Just(n), Just(k))
        })
        .prop_map(|(x, y, q, n, k)| {
            let n = BigInt::from(n);
            // sometimes an exact multiple of the divisor
            let x = if k == 0 { bigs(red(pmul(&r(&y), &r(&q)), &n)) } else { x };
            // sometimes a monic divisor
            let mut y = y;
            if k == 1 { if let Some(l) = y.last_mut() { *l = Big(BigInt::one()); } }
            (if x.is_empty() { vec![Big(BigInt::zero())] } else { x }, y, n)
        })
        // sometimes a dividend with coefficients outside [0, n), as long as their product with an inverse and a coefficient fits
        .prop_flat_map(move |(x, y, n)| {
            let top: BigInt = (T::max() / (&n * &n * &n)).min(BigInt::from(6)) - 1;
            let top = top.to_i64().unwrap().max(0);
            let lo = if T::SIGNED { -top } else { 0 };
            let l = x.len();
            (Just((x, y, n)), prop_oneof![2 => Just(vec![0i64; l]).boxed(), 1 => prop::collection::vec(lo..=top, l).boxed()])
        })
        .prop_map(|((x, y, n), k)| DivCase { x: x.into_iter().zip(k).map(|(c, k)| Big(c.0 + &n * k)).collect(), y, n: Big(n.clone()) })
}
fn c17_mod<T: PE>(c: &DivCase, rec: &mut Rec) -> Res {
    let (x, y, n) = (r(&c.x), r(&c.y), &c.n.0);
    let (xv, yv, nv): (Vec<T>, Vec<T>, T) = (v(&c.x), v(&c.y), T::of(n));
    let prime = probably_prime(n);
    rec.class(if prime { "prime modulus" } else { "composite modulus" });
    rec.class_if(x.iter().chain(&y).any(|c| *c >= *n || c.is_negative()), "unreduced-operand");
    let yt = trim(y.clone());
    if yt.is_empty() {
        rec.class("zero divisor");
        if !red(x, n).is_empty() {
            return must_panic("division by the zero polynomial", || (back(&poly_div(&xv, &yv, nv).0), 0));
        }
        return Ok(());
    }
    rec.nontrivial(trim(x.clone()).len() >= yt.len() && yt.len() >= 2);
    if inv_mod(&yt[yt.len() - 1], n).is_none() && red(x.clone(), n).len() < yt.len() {
        // nothing has to be divided: refusing and answering (0, x) are both acceptable
        rec.class("leading coefficient not invertible, dividend shorter");
        if let Ok((q, rm)) = caught(|| poly_div(&xv, &yv, nv)) {
            eq("quotient of a shorter dividend", back(&q), vec![])?;
            eq("remainder of a shorter dividend", back(&rm), bigs(red(x, n)))?;
        }
        return Ok(());
    }
    match pdivrem(&x, &y, n) {
        Some((q, rm)) => {
            rec.class_if(rm.is_empty(), "exact");
            rec.class_if(!rm.is_empty(), "with remainder");
            let (gq, gr) = no_panic("poly_div", || poly_div(&xv, &yv, nv))?;
            for g in gq.iter().chain(&gr) {
                ensure(g.big() >= BigInt::zero() && g.big() < *n, || format!("coefficient {} outside [0,{})", g.big(), n))?;
            }
            // the defining identity, then uniqueness
            let (bq, br) = (back(&gq), back(&gr));
            eq("q*y + r", bigs(red(padd(&pmul(&r(&bq), &y), &r(&br), 1), n)), bigs(red(x, n)))?;
            ensure(br.len() < yt.len(), || format!("remainder degree {} >= divisor degree {}", br.len() as i64 - 1, yt.len() - 1))?;
            if prime {
                eq("quotient", bq, bigs(q))?;
                eq("remainder", br, bigs(rm))?;
            }
            Ok(())
        }
        None => {
            rec.class("leading coefficient not invertible");
            if inv_mod(&yt[yt.len() - 1], n).is_none() {
                return must_panic("division by a non-invertible leading coefficient", || { let (q, r) = poly_div(&xv, &yv, nv); (back(&q), back(&r)) });
            }
            Ok(())
        }
    }
}
fn z_div<T: PE>() -> impl Strategy<Value = DivCase> {
    z_div_of::<T>(1..8, 6, 8)
}
fn z_div_long<T: PE>() -> impl Strategy<Value = DivCase> {
    prop_oneof![z_div_of::<T>(1..8, 300, 8), z_div_of::<T>(1..140, 140, 140)]
}
fn z_div_of<T: PE>(ly: std::ops::Range<usize>, lq: usize, lr: usize) -> impl Strategy<Value = DivCase> {
    let m = (T::max().sqrt().sqrt() >> 1usize).max(BigInt::from(3));
    let m2 = m.clone();
    (any::<bool>(), any::<bool>(), 0..5u8).prop_flat_map(move |(sp, neg, k)| {
        let s = T::SIGNED && neg;
        (coeffs(m.clone(), s, ly.clone(), sp), coeffs(m.clone(), s, 0..lq, sp), coeffs(m.clone(), s, 0..lr, sp), Just(k), any::<prop::sample::Index>())
    })
    .prop_map(move |(y, q, rm, k, ix)| {
        let mut y = y;
        if k <= 1 { let l = y.len() - 1; y[l] = Big(if k == 0 || !T::SIGNED { BigInt::one() } else { -BigInt::one() }); }
        let yd = trim(r(&y)).len();
        let mut rm = r(&rm);
        rm.truncate(yd.saturating_sub(1));
        let mut x = padd(&pmul(&r(&y), &r(&q)), &rm, 1);
        if k == 4 && !x.is_empty() { let i = ix.index(x.len()); x[i] += 1; }
        if x.is_empty() { x.push(BigInt::zero()); }
        // keep everything representable
        let x: P = x.into_iter().map(|c| if T::fits(&c) { c } else { c % &m2 }).collect();
        DivCase { x: bigs(x), y, n: Big(BigInt::zero()) }
    })
}
fn c17_z<T: PE>(c: &DivCase, rec: &mut Rec) -> Res {
    let (x, y) = (r(&c.x), r(&c.y));
    let zero = BigInt::zero();
    let (xv, yv): (Vec<T>, Vec<T>) = (v(&c.x), v(&c.y));
    let yt = trim(y.clone());
    if yt.is_empty() {
        rec.class("zero divisor");
        return must_panic("division by the zero polynomial", || back(&poly_div(&xv, &yv, T::of(&BigInt::zero())).0));
    }
    rec.nontrivial(trim(x.clone()).len() >= yt.len() && yt.len() >= 2);
    // replay the long division to see whether every intermediate value is representable
    let mut rem = x.clone();
    rem.resize(rem.len().max(y.len()), zero.clone());
    let lc = yt[yt.len() - 1].clone();
    let mut divisible = true;
    let mut top = rem.len();
    while divisible && top >= yt.len() {
        top -= 1;
        if !(&rem[top] % &lc).is_zero() { divisible = false; break; }
        let t = &rem[top] / &lc;
        let k = top + 1 - yt.len();
        for (i, c) in yt.iter().enumerate() {
            let p = &t * c;
            rem[k + i] -= &p;
            if !T::fits(&p) || !T::fits(&rem[k + i]) { rec.class("not representable"); return Ok(()); }
        }
    }
    if !divisible {
        rec.class("not divisible in Z");
        return must_panic("inexact division over Z", || { let (q, r) = poly_div(&xv, &yv, T::of(&zero)); (back(&q), back(&r)) });
    }
    let (q, rm) = pdivrem(&x, &y, &zero).expect("divisible");
    rec.class_if(rm.is_empty(), "exact");
    rec.class_if(!rm.is_empty(), "with remainder");
    let (gq, gr) = no_panic("poly_div", || poly_div(&xv, &yv, T::of(&zero)))?;
    eq("quotient", back(&gq), bigs(q))?;
    eq("remainder", back(&gr), bigs(rm))
}
fn c17(c: &mut Ctx) {
    c.rule("dividend and divisor over Z_n (prime and composite n) or Z, including exact multiples, non-monic, zero and longer divisors; non-trivial: divisor of degree >= 1 and dividend of at least that degree");
    macro_rules! t { ($($t:ident),*) => {$(
        c.run(concat!("mod-", stringify!($t)), 16_000, 400_000, modpoly_div::<$t>, c17_mod::<$t>);
        c.run(concat!("z-", stringify!($t)), 12_000, 300_000, z_div::<$t>, c17_z::<$t>);
        c.run(concat!("mod-long-", stringify!($t)), 60, 2_000, modpoly_div_long::<$t>, c17_mod::<$t>);
        c.run(concat!("z-long-", stringify!($t)), 60, 2_000, z_div_long::<$t>, c17_z::<$t>);
    )*} }
    t!(u16, u32, u64, u128, i16, i32, i64, i128);
}

// ---------------------------------------------------------------- C18: quotient rings
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RingCase {
    a: Vec<Big>,
    b: Vec<Big>,
    sparse: Vec<(usize, Big)>,
}
fn ring_case(l: usize, n: BigInt) -> impl Strategy<Value = RingCase> {
    let m: BigInt = &n - 1;
    (any::<bool>(), any::<bool>(), 0..8u8).prop_flat_map(move |(s1, s2, k)| {
        (coeffs(m.clone(), false, l, s1), coeffs(m.clone(), false, l, s2), prop::collection::vec((0..l, upto(m.clone())), 0..6), Just(k))
    })
    .prop_map(move |(mut a, b, sparse, k)| {
        match k {
            0 => for i in 1..l { a[i] = Big(BigInt::zero()); },
            1 => { let j = l / 2; for i in j..l { a[i] = Big(BigInt::zero()); } }
            _ => {}
        }
        RingCase { a, b, sparse }
    })
}
macro_rules! ring {
    ($c:expr, $name:expr, $R:ident, $t:ident, $l:expr, $n:expr, $irr:expr, $prime:expr, $quick:expr, $thorough:expr) => {{
        poly!($R, $t, $l, $n, $irr);
        let n = BigInt::from($n as i128);
        let mut m = vec![BigInt::zero(); $l + 1];
        for (i, c) in $irr.iter() { let (i, c): (usize, $t) = (*i, *c); m[i] = BigInt::from(c); }
        let m = red(m, &n);
        assert!(m.len() == $l + 1);
        let m2 = m.clone();
        let n2 = n.clone();
        let check = move |c: &RingCase, rec: &mut Rec| -> Res {
            let (n, m) = (&n2, &m2);
            let full = |p: &[Big]| { let mut o = [0 as $t; $l]; for (i, c) in p.iter().enumerate() { o[i] = <$t as PE>::of(&c.0); } o };
            let get = |p: &$R| -> Vec<Big> { back::<$t>(&p.poly) };
            let reduce = |p: P| -> Vec<Big> { bigs(pdivrem(&red(p, n), m, n).expect("monic").1) };
            let (a, b) = (r(&c.a), r(&c.b));
            let (x, y) = ($R::new_full(full(&c.a)), $R::new_full(full(&c.b)));
            rec.nontrivial(red(pmul(&a, &b), n).len() > $l);
            eq("new_full", get(&x), bigs(red(a.clone(), n)))?;
            eq("from_vec", get(&no_panic("from_vec", || $R::from_vec(v::<$t>(&c.a)))?), bigs(red(a.clone(), n)))?;
            // sparse construction: a later entry for the same power replaces an earlier one
            let mut s = vec![BigInt::zero(); $l];
            for (i, k) in &c.sparse { s[*i] = k.0.clone(); }
            let sp: Vec<(usize, $t)> = c.sparse.iter().map(|(i, k)| (*i, <$t as PE>::of(&k.0))).collect();
            eq("new", get(&$R::new(&sp)), bigs(trim(s)))?;
            eq("a+b", get(&no_panic("+", || x + y)?), bigs(red(padd(&a, &b, 1), n)))?;
            eq("a-b", get(&no_panic("-", || x - y)?), bigs(red(padd(&a, &b, -1), n)))?;
            let prod = no_panic("*", || x * y)?;
            eq("a*b", get(&prod), reduce(pmul(&a, &b)))?;
            eq("b*a == a*b", y * x == prod, true)?;
            eq("a == b", x == y, trim(a.clone()) == trim(b.clone()))?;
            eq("a - a == 0", x - x == $R::new(&[]), true)?;
            eq("a * 1 == a", x * $R::new(&[(0, 1)]) == x, true)?;
            eq("a*(a+b) == a*a + a*b", x * (x + y) == x * x + prod, true)?;
            // a vector with a coefficient at or above the degree is refused
            let mut long = v::<$t>(&c.a);
            long.push(1);
            must_panic("from_vec of degree l", || get(&$R::from_vec(long.clone())))?;
            *long.last_mut().unwrap() = 0;
            eq("from_vec with trailing zero", get(&no_panic("from_vec", || $R::from_vec(long.clone()))?), bigs(red(a.clone(), n)))?;
            let rnd = $R::random();
            ensure(rnd.poly.iter().all(|k| PE::big(*k) < *n && PE::big(*k) >= BigInt::zero()), || format!("random coefficient outside [0,{})", n))?;
            if $prime {
                let yt = trim(b.clone());
                if !yt.is_empty() {
                    let (q, rm) = pdivrem(&a, &b, n).expect("prime");
                    let (gq, gr) = no_panic("/", || x / y)?;
                    eq("a/b", (get(&gq), get(&gr)), (bigs(q), bigs(rm)))?;
                } else if !trim(a.clone()).is_empty() {
                    must_panic("division by zero", || get(&(x / y).0))?;
                }
                let g = pgcd(&a, m, n);
                if g.len() == 1 {
                    rec.class("invertible");
                    let i = no_panic("inv", || x.inv())?;
                    ensure(i.poly.iter().all(|k| PE::big(*k) < *n && PE::big(*k) >= BigInt::zero()), || "inverse not reduced".to_string())?;
                    eq("a * inv(a)", reduce(pmul(&a, &r(&get(&i)))), bigs(vec![BigInt::one()]))?;
                    eq("a * inv(a) == 1", x * i == $R::new(&[(0, 1)]), true)?;
                } else {
                    rec.class("not invertible");
                    must_panic("inverse of a non-invertible polynomial", || get(&x.inv()))?;
                }
            }
            Ok(())
        };
        $c.run($name, $quick, $thorough, move || ring_case($l, n.clone()), check);
    }};
}
/// Inversion modulo an arbitrary polynomial over a prime field.
fn inverse_case<T: PE>(deg: std::ops::Range<usize>) -> impl Strategy<Value = DivCase> {
    let lim = T::max();
    let ps: Vec<u64> = PRIMES.iter().copied().filter(|p| { let n = BigInt::from(*p); &n * &n * &n <= lim }).collect();
    (prop::sample::select(ps), any::<bool>(), deg, 0..8u8).prop_flat_map(|(n, sp, d, k)| {
        let m: BigInt = BigInt::from(n) - 1;
        (coeffs(m.clone(), false, 0..=d, sp), coeffs(m.clone(), false, d, sp), upto(m - 1), coeffs(BigInt::from(n) - 1, false, 2..4, false), Just((n, k)))
    })
    .prop_map(|(x, mut y, top, common, (n, k))| {
        let n = BigInt::from(n);
        y.push(if k % 3 == 0 { Big(BigInt::one()) } else { Big(top.0 + 1) });
        let (mut x, mut y) = (r(&x), r(&y));
        let com = trim(r(&common));
        // now and then the two have a factor in common
        if k == 7 && com.len() >= 2 && !x.is_empty() {
            y = red(pmul(&y, &com), &n);
            x = red(pmul(&x, &com), &n);
        }
        x.truncate(y.len() - 1);
        DivCase { x: bigs(x), y: bigs(y), n: Big(n) }
    })
}
fn inverse_one<T: PE + Integer>(c: &DivCase, rec: &mut Rec) -> Res {
    let (x, y, n) = (r(&c.x), r(&c.y), &c.n.0);
    let g = pgcd(&x, &y, n);
    rec.nontrivial(trim(x.clone()).len() >= 2 && y.len() >= 3);
    rec.class_if(y[y.len() - 1] != BigInt::one(), "modulus not monic");
    let got = no_panic("extended_euclid", || extended_euclid(&v::<T>(&c.x), &v::<T>(&c.y), T::of(n)))?;
    if g.len() != 1 {
        rec.class("not invertible");
        return ensure(got.is_err(), || format!("inverse {:?} of a polynomial that has none", got.map(|p| back(&p))));
    }
    rec.class("invertible");
    let i = match got { Ok(p) => p, Err(e) => return Err(format!("an invertible polynomial was refused: {}", e)) };
    for k in &i { ensure(k.big() >= BigInt::zero() && k.big() < *n, || format!("coefficient {} of the inverse outside [0,{})", k.big(), n))?; }
    let i = r(&back(&i));
    ensure(i.len() < y.len(), || "inverse not reduced modulo the polynomial".into())?;
    eq("x * inverse mod y", bigs(pdivrem(&pmul(&x, &i), &y, n).expect("prime").1), vec![Big(BigInt::one())])
}
fn c18(c: &mut Ctx) {
    macro_rules! inv { ($($t:ident),*) => {$(
        c.run(concat!("inverse-", stringify!($t)), 8_000, 200_000, || inverse_case::<$t>(1..9), inverse_one::<$t>);
        c.run(concat!("inverse-long-", stringify!($t)), 40, 1_000, || inverse_case::<$t>(9..60), inverse_one::<$t>);
    )*} }
    inv!(i16, i32, i64, i128, u16, u32, u64, u128);
    c.rule("two ring elements (dense, sparse, constant or low-degree) of one of 26 quotient rings, and a sparse description; non-trivial: the plain product exceeds the degree of the modulus, so it must be reduced");
    ring!(c, "u128 Z3 x^3", R1, u128, 3, 3, &[(0, 2), (1, 2), (3, 1)], true, 8_000, 200_000);
    ring!(c, "i128 Z3 x^3", R2, i128, 3, 3, &[(0, 2), (1, 2), (3, 1)], true, 8_000, 200_000);
    ring!(c, "u128 Z11 x^3", R3, u128, 3, 11, &[(0, 2), (1, 2), (3, 1)], true, 8_000, 200_000);
    ring!(c, "u128 Z2 x^8 (AES)", R4, u128, 8, 2, &[(0, 1), (1, 1), (3, 1), (4, 1), (8, 1)], true, 8_000, 200_000);
    ring!(c, "u8 Z2 x^8 (AES)", R5, u8, 8, 2, &[(0, 1), (1, 1), (3, 1), (4, 1), (8, 1)], true, 8_000, 200_000);
    ring!(c, "u128 Z3 x^11", R6, u128, 11, 3, &[(0, 2), (1, 2), (2, 1), (3, 2), (4, 2), (5, 1), (6, 2), (8, 2), (10, 2), (11, 2)], true, 6_000, 150_000);
    ring!(c, "u64 Z17 x^4+1", R7, u64, 4, 17, &[(0, 1), (4, 1)], true, 8_000, 200_000);
    ring!(c, "u32 Z1289 x^8+1", R8, u32, 8, 1289, &[(0, 1), (8, 1)], true, 6_000, 150_000);
    ring!(c, "i64 Z3329 x^8+1", R9, i64, 8, 3329, &[(0, 1), (8, 1)], true, 6_000, 150_000);
    ring!(c, "i128 Z4591 x^7-x-1", R10, i128, 7, 4591, &[(0, 4590), (1, 4590), (7, 1)], true, 6_000, 150_000);
    ring!(c, "u128 Z4591 x^7-x-1", R11, u128, 7, 4591, &[(0, 4590), (1, 4590), (7, 1)], true, 6_000, 150_000);
    ring!(c, "u128 Z8380417 x^6-1", R12, u128, 6, 8_380_417, &[(0, 8_380_416), (6, 1)], true, 6_000, 150_000);
    ring!(c, "u64 Z5 x^1", R13, u64, 1, 5, &[(0, 3), (1, 1)], true, 4_000, 40_000);
    ring!(c, "i32 Z7 x^2", R14, i32, 2, 7, &[(0, 3), (1, 5), (2, 4)], true, 8_000, 200_000);
    ring!(c, "u128 Z2048 x^5-1", R15, u128, 5, 2048, &[(0, 2047), (5, 1)], false, 6_000, 150_000);
    ring!(c, "i128 Z2147483647 x^5", R16, i128, 5, 2_147_483_647, &[(0, 7), (2, 1), (5, 3)], true, 6_000, 150_000);
    ring!(c, "u128 Z3329 x^64+1", R17, u128, 64, 3329, &[(0, 1), (64, 1)], true, 160, 4_000);
    ring!(c, "u128 Z3329 x^256+1", R18, u128, 256, 3329, &[(0, 1), (256, 1)], false, 16, 300);
    // no constant term: x divides the modulus, and x itself has no inverse
    ring!(c, "i64 Z7 x^3+x", R19, i64, 3, 7, &[(1, 1), (3, 1)], true, 6_000, 150_000);
    ring!(c, "u32 Z13 x^4", R20, u32, 4, 13, &[(4, 1)], true, 6_000, 150_000);
    ring!(c, "i128 Z2 x^1", R21, i128, 1, 2, &[(1, 1)], true, 2_000, 20_000);
    ring!(c, "i16 Z31 x^2+2", R22, i16, 2, 31, &[(0, 2), (2, 1)], true, 6_000, 150_000);
    ring!(c, "u16 Z31 x^5", R23, u16, 5, 31, &[(0, 30), (2, 17), (3, 1), (5, 1)], true, 6_000, 150_000);
    ring!(c, "u64 Z65537 x^16+1", R24, u64, 16, 65_537, &[(0, 1), (16, 1)], true, 1_500, 40_000);
    ring!(c, "i32 Z101 x^20", R25, i32, 20, 101, &[(0, 9), (1, 3), (4, 77), (7, 1), (11, 50), (13, 100), (19, 2), (20, 1)], true, 1_000, 30_000);
    ring!(c, "i64 Z6 x^3", R26, i64, 3, 6, &[(0, 4), (1, 5), (3, 1)], false, 6_000, 150_000);
}

fn main() {
    main_with(&[("C16", c16), ("C17", c17), ("C18", c18)])
}
