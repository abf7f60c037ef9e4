//! C06, C07: bounded integers of arbitrary width.
use hacspec::prelude::*;
use hacspec::*;
use num::{BigInt, BigUint, Integer as NI, Signed};
use vh::big::{big, modn, pair, pow2, probably_prime, signed_upto, upto, Big};
use vh::*;

type F2 = fn(&BigInt, &BigInt) -> BigInt;
type M3 = fn(&BigInt, &BigInt, &BigInt) -> BigInt;
#[derive(Clone)]
struct Ty {
    name: &'static str,
    bits: usize,
    signed: bool,
    public: bool,
    add: F2,
    sub: F2,
    mul: F2,
    wrap: [F2; 3],
    div: Option<F2>,
    rem: Option<F2>,
    pow: Option<fn(&BigInt, u128, &BigInt) -> BigInt>,
    pow_felem: Option<M3>,
    inv: Option<F2>,
    cmp: Option<fn(&BigInt, &BigInt) -> (bool, bool, bool, bool, bool, bool, std::cmp::Ordering)>,
    from_int: fn(&BigInt) -> BigInt,
    from_uint: fn(&BigUint) -> BigInt,
    into_uint: fn(&BigInt) -> BigUint,
    lit: fn(u128) -> BigInt,
    slit: fn(i128) -> BigInt,
    pow2: fn(usize) -> BigInt,
    bit: fn(&BigInt, usize) -> bool,
    hex: fn(&str, &str) -> BigInt,
    le: Option<fn(&[u8]) -> BigInt>,
    to_le: Option<fn(&BigInt) -> Vec<u8>>,
    show: fn(&BigInt) -> (String, String),
    zero: fn() -> BigInt,
}
impl Ty {
    fn max(&self) -> BigInt {
        pow2(self.bits) - 1
    }
    fn min(&self) -> BigInt {
        if self.signed { -self.max() } else { big(0) }
    }
    fn fits(&self, x: &BigInt) -> Option<Big> {
        if *x <= self.max() && *x >= self.min() { Some(Big(x.clone())) } else { None }
    }
}

macro_rules! common {
    ($T:ident, $bits:expr, $signed:expr, $public:expr, $hex:expr, $le:expr, $tole:expr) => {
        Ty {
            name: stringify!($T),
            bits: $bits,
            signed: $signed,
            public: $public,
            add: |a, b| ($T::from(a.clone()) + $T::from(b.clone())).into(),
            sub: |a, b| ($T::from(a.clone()) - $T::from(b.clone())).into(),
            mul: |a, b| ($T::from(a.clone()) * $T::from(b.clone())).into(),
            wrap: [
                |a, b| $T::from(a.clone()).wrap_add($T::from(b.clone())).into(),
                |a, b| $T::from(a.clone()).wrap_sub($T::from(b.clone())).into(),
                |a, b| $T::from(a.clone()).wrap_mul($T::from(b.clone())).into(),
            ],
            div: None,
            rem: None,
            pow: None,
            pow_felem: None,
            inv: None,
            cmp: None,
            from_int: |a| $T::from(a.clone()).into(),
            from_uint: |a| $T::from(a.clone()).into(),
            into_uint: |a| $T::from(a.clone()).into(),
            lit: |x| $T::from_literal(x).into(),
            slit: |x| $T::from_signed_literal(x).into(),
            pow2: |x| $T::pow2(x).into(),
            bit: |a, i| $T::from(a.clone()).bit(i),
            hex: $hex,
            le: $le,
            to_le: $tole,
            show: |a| (format!("{}", $T::from(a.clone())), format!("{:?}", $T::from(a.clone()))),
            zero: || $T::default().into(),
        }
    };
}
macro_rules! public_part {
    ($T:ident, $ty:expr) => {{
        let mut t = $ty;
        t.div = Some(|a, b| ($T::from(a.clone()) / $T::from(b.clone())).into());
        t.rem = Some(|a, b| ($T::from(a.clone()) % $T::from(b.clone())).into());
        t.pow = Some(|a, e, m| $T::pow($T::from(a.clone()), e, $T::from(m.clone())).into());
        t.pow_felem = Some(|a, e, m| $T::from(a.clone()).pow_felem($T::from(e.clone()), $T::from(m.clone())).into());
        t.inv = Some(|a, m| $T::inv($T::from(a.clone()), $T::from(m.clone())).into());
        t.cmp = Some(|a, b| {
            let (x, y) = ($T::from(a.clone()), $T::from(b.clone()));
            (x == y, x != y, x < y, x <= y, x > y, x >= y, x.cmp(&y))
        });
        t
    }};
}
macro_rules! upub {
    ($v:ident, $T:ident, $bits:literal) => {{
        unsigned_public_integer!($T, $bits);
        $v.push(public_part!($T, common!($T, $bits, false, true, |_, s| $T::from_hex(s).into(),
            Some(|b| $T::from_le_bytes(b).into()), Some(|a| $T::from(a.clone()).to_le_bytes()))));
    }};
}
macro_rules! usec {
    ($v:ident, $T:ident, $bits:literal) => {{
        unsigned_integer!($T, $bits);
        $v.push(common!($T, $bits, false, false, |_, s| $T::from_hex(s).into(),
            Some(|b| $T::from_le_bytes(b).into()), Some(|a| $T::from(a.clone()).to_le_bytes())));
    }};
}
macro_rules! spub {
    ($v:ident, $T:ident, $bits:literal) => {{
        signed_public_integer!($T, $bits);
        $v.push(public_part!($T, common!($T, $bits, true, true, |g, s| $T::from_hex(g, s).into(), None, None)));
    }};
}
/// The types of the crate's legacy interface have no generic-trait forms; they stand for themselves.
trait Plain: Sized + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> {
    fn wrap_add(self, o: Self) -> Self {
        self + o
    }
    fn wrap_sub(self, o: Self) -> Self {
        self - o
    }
    fn wrap_mul(self, o: Self) -> Self {
        self * o
    }
}
macro_rules! legacy {
    ($v:ident, $T:ident, $bits:literal) => {{
        define_abstract_integer_checked!($T, $bits);
        impl Plain for $T {}
        $v.push(public_part!($T, common!($T, $bits, false, true, |_, s| $T::from_hex(s).into(),
            Some(|b| $T::from_le_bytes(b).into()), Some(|a| $T::from(a.clone()).to_le_bytes()))));
    }};
}
macro_rules! ssec {
    ($v:ident, $T:ident, $bits:literal) => {{
        signed_integer!($T, $bits);
        $v.push(common!($T, $bits, true, false, |g, s| $T::from_hex(g, s).into(), None, None));
    }};
}

#[allow(unused)]
fn types() -> Vec<Ty> {
    let mut v = vec![];
    legacy!(v, LegacyU64, 64);
    legacy!(v, LegacyU200, 200);
    upub!(v, PubU4, 4);
    upub!(v, PubU8, 8);
    upub!(v, PubU12, 12);
    upub!(v, PubU61, 61);
    upub!(v, PubU64, 64);
    upub!(v, PubU127, 127);
    upub!(v, PubU128, 128);
    upub!(v, PubU130, 130);
    upub!(v, PubU256, 256);
    upub!(v, PubU272, 272);
    upub!(v, PubU513, 513);
    usec!(v, SecU8, 8);
    usec!(v, SecU12, 12);
    usec!(v, SecU64, 64);
    usec!(v, SecU128, 128);
    usec!(v, SecU233, 233);
    usec!(v, SecU384, 384);
    spub!(v, PubS7, 7);
    spub!(v, PubS8, 8);
    spub!(v, PubS12, 12);
    spub!(v, PubS64, 64);
    spub!(v, PubS130, 130);
    spub!(v, PubS256, 256);
    ssec!(v, SecS8, 8);
    ssec!(v, SecS20, 20);
    ssec!(v, SecS128, 128);
    ssec!(v, SecS300, 300);
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arith {
    a: Big,
    b: Big,
    m: Big,
    e: W,
    p: usize,
}

fn primes(max: &BigInt) -> Vec<BigInt> {
    let c = ["2", "3", "5", "7", "b", "d", "f1", "fb", "ffd", "fff1", "10001", "7fffffff", "1fffffffffffffff", "ffffffffffffffc5",
        "7fffffffffffffffffffffffffffffff", "ffffffffffffffffffffffffffffff61", "3fffffffffffffffffffffffffffffffb",
        "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed",
        "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"];
    c.iter().map(|s| vh::big::bighex(s)).filter(|p| p <= max && probably_prime(p)).collect()
}

fn c06(c: &mut Ctx) {
    c.rule("operand pairs within the type's range, biased so that sum, difference or product lands on or next to the bound; non-trivial: some exact result is outside the range or within 2 of a bound");
    for t in types() {
        let name = t.name;
        let ps = primes(&t.max());
        let np = ps.len();
        let (mx, sg) = (t.max(), t.signed);
        let mk = || {
            (pair(mx.clone(), sg), upto(&mx - 1), word(128), 0..64usize)
                .prop_map(|((a, b), m, e, p)| Arith { a, b, m: Big(m.0 + 1), e, p })
        };
        let check = |c: &Arith, r: &mut Rec| -> Res {
            let (a, b) = (&c.a.0, &c.b.0);
            let (s, d, p) = (a + b, a - b, a * b);
            let near = |x: &BigInt| (x - t.max()).abs() <= big(2) || (x - t.min()).abs() <= big(2);
            let out = |x: &BigInt| t.fits(x).is_none();
            r.class_if(out(&s), "sum-out");
            r.class_if(out(&d), "difference-out");
            r.class_if(out(&p), "product-out");
            r.class_if(near(&s), "sum-at-bound");
            r.class_if(near(&p), "product-at-bound");
            r.nontrivial([&s, &d, &p].iter().any(|x| out(x) || near(x)));
            exact_or_panic("a+b", t.fits(&s), || Big((t.add)(a, b)))?;
            exact_or_panic("a-b", t.fits(&d), || Big((t.sub)(a, b)))?;
            exact_or_panic("a*b", t.fits(&p), || Big((t.mul)(a, b)))?;
            for (f, x, n) in [(t.wrap[0], &s, "wrap_add"), (t.wrap[1], &d, "wrap_sub"), (t.wrap[2], &p, "wrap_mul")] {
                // the generic interface: exact wherever the result is representable
                if let Some(x) = t.fits(x) {
                    exact_or_panic(n, Some(x), || Big(f(a, b)))?;
                }
            }
            let zero = big(0);
            if let Some(f) = t.div {
                let w = if *b == zero { None } else { Some(Big(a / b)) };
                exact_or_panic("a/b", w, || Big(f(a, b)))?;
            }
            if let Some(f) = t.rem {
                let w = if *b == zero { None } else { Some(Big(a % b)) };
                exact_or_panic("a%b", w, || Big(f(a, b)))?;
            }
            if let Some(f) = t.cmp {
                for (a, b) in [(a, b), (b, a), (a, a), (a, &if sg { -a } else { b.clone() })] {
                    eq("comparison", no_panic("cmp", || f(a, b))?, (a == b, a != b, a < b, a <= b, a > b, a >= b, a.cmp(b)))?;
                }
            }
            if let (Some(pw), Some(pf), Some(inv)) = (t.pow, t.pow_felem, t.inv) {
                let m = &c.m.0;
                if !vh::big::is_neg(a) {
                    let e = BigInt::from(c.e.0);
                    eq("a^e mod m", Big(no_panic("pow", || pw(a, c.e.0, m))?), Big(a.modpow(&e, m)))?;
                    if !vh::big::is_neg(b) {
                        eq("a^b mod m", Big(no_panic("pow_felem", || pf(a, b, m))?), Big(a.modpow(b, m)))?;
                    }
                    // a prime modulus, or any modulus of the range
                    for q in [&ps[c.p % np], m] {
                        let i = vh::big::inverse(a, q);
                        r.class_if(i.is_none(), "no-inverse");
                        exact_or_panic("inv", i.map(Big), || Big(inv(a, q)))?;
                    }
                }
            }
            Ok(())
        };
        c.run(name, 30_000, 400_000, mk, check);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    v: Big,
    w: Big,
    wide: Big,
    lit: W,
    slit: W,
    p: usize,
    bytes: B,
    sign: u8,
    upper: bool,
    bad: u8,
    at: usize,
    ch: char,
}

fn c07(c: &mut Ctx) {
    c.rule("values inside and up to two bytes outside the range, literals over the full u128/i128 range, hexadecimal strings up to two bytes too long, well-formed and malformed; non-trivial: some conversion of the case must be rejected, or the value is within 2 of a bound");
    for t in types() {
        let (mx, sg, bits) = (t.max(), t.signed, t.bits);
        let nb = (bits + 7) / 8;
        let mk = || {
            (
                (signed_upto(mx.clone(), sg), signed_upto(mx.clone(), sg)),
                prop_oneof![
                    2 => signed_upto(pow2(bits + 16), true),
                    2 => (any::<bool>(), -3..=3i32).prop_map({ let mx = mx.clone(); move |(n, d)| Big(if n { -&mx + d } else { &mx + d }) }),
                    1 => (any::<bool>(), 0..20usize).prop_map(move |(n, d)| Big(if n { -pow2(bits + d) } else { pow2(bits + d) })),
                ],
                (prop_oneof![3 => word(128), 2 => { let mx = mx.clone(); (-2..=2i32).prop_map(move |d| {
                    let x = &mx + d; W(u128::from_str_radix(&x.to_str_radix(16), 16).unwrap_or(u128::MAX)) }) }],
                 prop_oneof![3 => word(128), 3 => (-300..300i128).prop_map(|x| W(x as u128)), 1 => word(128).prop_map(move |w| W((w.0 as i128 >> (128usize.saturating_sub(bits.min(127)))) as u128))]),
                prop_oneof![3 => 0..bits + 20, 1 => bits.saturating_sub(2)..bits + 2],
                bytes_of(prop_oneof![3 => Just(nb), 1 => Just(nb + 1), 1 => 0..=nb + 2]),
                (0..4u8, any::<bool>(), 0..8u8, any::<usize>(), prop_oneof![prop::sample::select(vec!['+', '-', 'g', 'G', ' ', 'x', '/', ':', '@', '`', 'é', '\n', '_']), any::<char>()]),
            )
                .prop_map(|((v, w), wide, (lit, slit), p, bytes, (sign, upper, bad, at, ch))| Conv { v, w, wide, lit, slit, p, bytes, sign, upper, bad, at, ch })
        };
        let check = |c: &Conv, r: &mut Rec| -> Res {
            let v = &c.v.0;
            let x = &c.wide.0;
            r.class_if(t.fits(x).is_none(), "integer-out-of-range");
            r.nontrivial(t.fits(x).is_none() || (v - t.max()).abs() <= big(2) || (v - t.min()).abs() <= big(2));
            eq("value of an in-range integer", Big(no_panic("conversion", || (t.from_int)(v))?), c.v.clone())?;
            exact_or_panic("conversion from an integer", t.fits(x), || Big((t.from_int)(x)))?;
            if let Some(u) = x.to_biguint() {
                exact_or_panic("conversion from a natural", t.fits(x), || Big((t.from_uint)(&u)))?;
            }
            if let Some(u) = v.to_biguint() {
                eq("conversion to a natural", no_panic("to natural", || (t.into_uint)(v))?, u)?;
            }
            let s = v.to_string();
            eq("decimal text", no_panic("format", || (t.show)(v))?, (s.clone(), s))?;
            let l = BigInt::from(c.lit.0);
            r.class_if(t.fits(&l).is_none(), "literal-out-of-range");
            exact_or_panic("literal", t.fits(&l), || Big((t.lit)(c.lit.0)))?;
            let sl = c.slit.0 as i128;
            let l = BigInt::from(sl);
            r.class_if(t.fits(&l).is_none(), "signed-literal-out-of-range");
            r.class_if(sl < 0, "negative-literal");
            exact_or_panic("signed literal", t.fits(&l), || Big((t.slit)(sl)))?;
            let q = pow2(c.p);
            exact_or_panic("power of two", t.fits(&q), || Big((t.pow2)(c.p)))?;
            // a negative number is an infinite two's-complement one, as everywhere
            let n = 8 * nb;
            for i in [c.at % n, c.p % n, 0, n - 1] {
                eq("bit", no_panic("bit", || (t.bit)(v, i))?, modn(&(v >> i), &big(2)) == big(1))?;
            }
            must_panic("bit outside the representation", || (t.bit)(v, n + c.at % 70))?;
            // hexadecimal
            let mut h = hex(&c.bytes);
            if c.upper { h = h.to_uppercase(); }
            let neg = t.signed && c.sign % 2 == 1;
            let g = if neg { "-" } else { "+" };
            let mut hv = BigInt::from(BigUint::from_bytes_be(&c.bytes));
            if neg { hv = -hv; }
            r.class_if(t.fits(&hv).is_none(), "hex-out-of-range");
            exact_or_panic("hexadecimal", t.fits(&hv), || Big((t.hex)(g, &h)))?;
            if t.signed {
                // no sign reads as the plain value, or is refused; any other sign is refused
                match caught(|| Big((t.hex)("", &h))) {
                    Ok(x) => {
                        let u = BigInt::from(BigUint::from_bytes_be(&c.bytes));
                        ensure(t.fits(&u) == Some(x.clone()), || format!("hexadecimal {:?} without a sign read as {:?}", h, x))?
                    }
                    Err(_) => {}
                }
                let bad = ["++", "-+", " ", "--", "x", "+ ", "0", "\u{2212}"][c.at % 8];
                must_panic("hexadecimal with a malformed sign", || Big((t.hex)(bad, &h)))?;
            }
            match c.bad {
                0 => {
                    let mut o: Vec<char> = h.chars().collect();
                    o.insert(c.at % (o.len() + 1), '0');
                    let o: String = o.into_iter().collect();
                    r.class("hex-odd-length");
                    must_panic("odd-length hexadecimal", || Big((t.hex)(g, &o)))?;
                }
                1 | 2 if !h.is_empty() && !c.ch.is_ascii_hexdigit() => {
                    let mut o: Vec<char> = h.chars().collect();
                    let k = c.at % o.len();
                    o[k] = c.ch;
                    let o: String = o.into_iter().collect();
                    r.class("hex-bad-digit");
                    must_panic(&format!("hexadecimal {:?}", o), || Big((t.hex)(g, &o)))?;
                }
                _ => {}
            }
            if let (Some(f), Some(g)) = (t.le, t.to_le) {
                let u = BigInt::from(BigUint::from_bytes_le(&c.bytes));
                exact_or_panic("little-endian bytes", t.fits(&u), || Big(f(&c.bytes)))?;
                let b = no_panic("to_le_bytes", || g(v))?;
                ensure(b.len() <= nb.max(1), || format!("{} bytes for a {}-bit integer", b.len(), bits))?;
                eq("value of the byte encoding", Big(BigInt::from(BigUint::from_bytes_le(&b))), c.v.clone())?;
                eq("bytes round trip", Big(no_panic("from_le_bytes", || f(&b))?), c.v.clone())?;
            }
            if let Some(f) = t.cmp {
                let w = &c.w.0;
                for (a, b) in [(v, w), (w, v), (v, v)] {
                    eq("comparison", no_panic("cmp", || f(a, b))?, (a == b, a != b, a < b, a <= b, a > b, a >= b, a.cmp(b)))?;
                }
                if *v > t.min() {
                    let p: BigInt = v - 1;
                    eq("comparison with the predecessor", f(v, &p), (false, true, false, false, true, true, std::cmp::Ordering::Greater))?;
                }
            }
            eq("default", Big((t.zero)()), Big(big(0)))
        };
        c.run(t.name, 20_000, 300_000, mk, check);
    }
    let _ = types().iter().map(|t| t.public).count();
}

fn main() {
    main_with(&[("C06", c06), ("C07", c07)])
}
