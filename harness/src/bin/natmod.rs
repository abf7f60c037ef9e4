//! C08, C09: integers modulo n.
use hacspec::prelude::*;
use hacspec::*;
use num::{BigInt, BigUint, Integer as NI};
use vh::big::{big, modn, pow2, uint, upto, Big};
use vh::*;

type F1 = fn(&BigInt) -> BigInt;
type F2 = fn(&BigInt, &BigInt) -> BigInt;
#[derive(Clone)]
struct Ty {
    name: &'static str,
    base_bits: usize,
    n: BigInt,
    of: F1, // base integer -> class -> representative
    of_uint: F1,
    add: F2,
    sub: F2,
    mul: F2,
    wadd: F2,
    wsub: F2,
    wmul: F2,
    lit: fn(u128) -> BigInt,
    slit: fn(i128) -> BigInt,
    hex: fn(&str) -> BigInt,
    le: fn(&[u8]) -> BigInt,
    to_le: fn(&BigInt) -> Vec<u8>,
    bit: fn(&BigInt, usize) -> bool,
    show: fn(&BigInt) -> (String, String),
    zero: fn() -> BigInt,
    modulus: fn() -> BigInt,
    chain: fn(&BigInt, &[(u8, BigInt)]) -> BigInt,
    public: Option<Pubs>,
}
#[derive(Clone)]
struct Pubs {
    div: F2,
    rem: F2,
    inv: F1,
    pow: fn(&BigInt, u128) -> BigInt,
    pow_felem: F2,
    cmp: fn(&BigInt, &BigInt) -> (bool, bool, bool, bool, bool, bool, std::cmp::Ordering),
    seq: fn(&BigInt) -> (Vec<u8>, Vec<u8>),
    from_seq: fn(&[u8]) -> BigInt,
    secret_lit: fn(u128) -> BigInt,
}

macro_rules! common {
    ($T:ident, $C:ident, $bits:literal, $n:literal) => {{
        fn mk(a: &BigInt) -> $T {
            $C::from(a.clone()).into()
        }
        fn un(a: $T) -> BigInt {
            let c: $C = a.into();
            c.into()
        }
        Ty {
            name: stringify!($T),
            base_bits: $bits,
            n: vh::big::bighex($n),
            of: |a| un(mk(a)),
            of_uint: |a| { let c: $C = uint(a).into(); un(c.into()) },
            add: |a, b| un(mk(a) + mk(b)),
            sub: |a, b| un(mk(a) - mk(b)),
            mul: |a, b| un(mk(a) * mk(b)),
            wadd: |a, b| un(mk(a).wrap_add(mk(b))),
            wsub: |a, b| un(mk(a).wrap_sub(mk(b))),
            wmul: |a, b| un(mk(a).wrap_mul(mk(b))),
            lit: |x| un($T::from_literal(x)),
            slit: |x| un($T::from_signed_literal(x)),
            hex: |s| un($T::from_hex(s)),
            le: |b| un($T::from_le_bytes(b)),
            to_le: |a| mk(a).to_le_bytes(),
            bit: |a, i| mk(a).bit(i),
            show: |a| (format!("{}", mk(a)), format!("{:?}", mk(a))),
            zero: || un($T::default()),
            modulus: || $T::max().into(),
            chain: |a, ops| {
                let mut x = mk(a);
                for (k, b) in ops {
                    let y = mk(b);
                    x = match k % 6 {
                        0 => x + y,
                        1 => x - y,
                        2 => y - x,
                        3 => x * y,
                        4 => x + x,
                        _ => x * x,
                    };
                }
                un(x)
            },
            public: None,
        }
    }};
}
macro_rules! sec {
    ($v:ident, $T:ident, $C:ident, $bits:literal, $n:literal) => {{
        nat_mod!($T, $C, $bits, $n);
        $v.push(common!($T, $C, $bits, $n));
    }};
}
macro_rules! public {
    ($v:ident, $T:ident, $C:ident, $bits:literal, $n:literal) => {{
        public_nat_mod!($T, $C, $bits, $n);
        let mut t = common!($T, $C, $bits, $n);
        fn mk(a: &BigInt) -> $T {
            $C::from(a.clone()).into()
        }
        fn un(a: $T) -> BigInt {
            let c: $C = a.into();
            c.into()
        }
        t.public = Some(Pubs {
            div: |a, b| un(mk(a) / mk(b)),
            rem: |a, b| un(mk(a) % mk(b)),
            inv: |a| un($T::inv(mk(a))),
            pow: |a, e| un($T::pow(mk(a), e)),
            pow_felem: |a, e| un(mk(a).pow_felem(mk(e))),
            cmp: |a, b| {
                let (x, y) = (mk(a), mk(b));
                (x == y, x != y, x < y, x <= y, x > y, x >= y, x.cmp(&y))
            },
            seq: |a| {
                let s = mk(a).to_byte_seq_le();
                let p = mk(a).to_public_byte_seq_le();
                (s.iter().map(|x| x.declassify()).collect(), p.iter().cloned().collect())
            },
            from_seq: |b| un($T::from_byte_seq_le(ByteSeq::from_public_slice(b))),
            secret_lit: |x| un($T::from_secret_literal(U128::classify(x))),
        });
        $v.push(t);
    }};
}

/// The types of the crate's legacy interface have no generic-trait forms; they stand for themselves.
trait Plain: Sized + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> {
    fn wrap_add(self, o: Self) -> Self {
        self + o
    }
    fn wrap_sub(self, o: Self) -> Self {
        self - o
    }
    fn wrap_mul(self, o: Self) -> Self {
        self * o
    }
}
macro_rules! legacy {
    ($v:ident, $T:ident, $C:ident, $bits:literal, $n:literal) => {{
        define_abstract_integer_checked!($C, $bits);
        define_refined_modular_integer!($T, $C, $C::from_hex($n));
        impl Plain for $T {}
        let mut t = common!($T, $C, $bits, $n);
        fn mk(a: &BigInt) -> $T {
            $C::from(a.clone()).into()
        }
        fn un(a: $T) -> BigInt {
            let c: $C = a.into();
            c.into()
        }
        t.public = Some(Pubs {
            div: |a, b| un(mk(a) / mk(b)),
            rem: |a, b| un(mk(a) % mk(b)),
            inv: |a| un($T::inv(mk(a))),
            pow: |a, e| un($T::pow(mk(a), e)),
            pow_felem: |a, e| un(mk(a).pow_felem(mk(e))),
            cmp: |a, b| {
                let (x, y) = (mk(a), mk(b));
                (x == y, x != y, x < y, x <= y, x > y, x >= y, x.cmp(&y))
            },
            seq: |a| (mk(a).to_le_bytes(), mk(a).to_le_bytes()),
            from_seq: |b| un($T::from_le_bytes(b)),
            secret_lit: |x| un($T::from_literal(x)),
        });
        $v.push(t);
    }};
}

#[allow(unused)]
fn types() -> Vec<Ty> {
    let mut v = vec![];
    legacy!(v, Legacy61, Legacy61c, 64, "1fffffffffffffff");
    legacy!(v, Legacy448, Legacy448c, 448, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    public!(v, P1, P1c, 8, "01");
    public!(v, P2, P2c, 8, "02");
    public!(v, P3, P3c, 8, "03");
    public!(v, P251, P251c, 8, "fb");
    public!(v, P255, P255c, 8, "ff");
    public!(v, P256, P256c, 16, "0100");
    public!(v, P4095, P4095c, 12, "0fff");
    public!(v, P61, P61c, 64, "1fffffffffffffff");
    public!(v, P64, P64c, 64, "ffffffffffffffc5");
    public!(v, P2p64, P2p64c, 72, "010000000000000000");
    public!(v, P127, P127c, 128, "7fffffffffffffffffffffffffffffff");
    public!(v, P128, P128c, 128, "ffffffffffffffffffffffffffffff61");
    public!(v, P1305, P1305c, 272, "03fffffffffffffffffffffffffffffffb");
    public!(v, P25519, P25519c, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
    public!(v, P2p255, P2p255c, 256, "8000000000000000000000000000000000000000000000000000000000000000");
    public!(v, PNist, PNistc, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
    public!(v, PAll1, PAll1c, 256, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    public!(v, P448, P448c, 448, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    public!(v, P521, P521c, 528, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    sec!(v, S251, S251c, 8, "fb");
    sec!(v, S255, S255c, 8, "ff");
    sec!(v, S1000, S1000c, 16, "03e8");
    sec!(v, S61, S61c, 61, "1fffffffffffffff");
    sec!(v, S128, S128c, 128, "ffffffffffffffffffffffffffffff61");
    sec!(v, S1305, S1305c, 130, "03fffffffffffffffffffffffffffffffb");
    sec!(v, S25519, S25519c, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
    sec!(v, S384, S384c, 384, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff");
    v
}

/// Representative-biased value in 0..=limit: near 0, n, n/2, multiples of n, or anything.
fn elem(n: &BigInt, limit: &BigInt) -> impl Strategy<Value = Big> {
    let (n, l) = (n.clone(), limit.clone());
    let (n2, l2) = (n.clone(), l.clone());
    prop_oneof![
        5 => upto(&n - 1),
        2 => upto(l.clone()),
        2 => (1..4u32, -3..=3i32).prop_map(move |(k, d)| {
            let x = &n * k + d;
            Big(if x > l { &n - 1 } else { modn(&x, &(&l + 1)) })
        }),
        1 => (-2..=2i32).prop_map(move |d| Big(modn(&((&n2 >> 1usize) + d), &(&l2 + 1)))),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ring {
    a: Big,
    b: Big,
    rel: u8,
    lit: W,
    slit: W,
    bytes: B,
    ops: Vec<(u8, Big)>,
}

/// A constructor reduces its input; it may refuse one that is not below `n` (and one that
/// is above what the base integer holds).
fn reduced_or_refused(what: &str, v: &BigInt, n: &BigInt, lim: &BigInt, f: impl FnOnce() -> BigInt) -> Res {
    match caught(f) {
        Ok(g) => eq(what, Big(g), Big(modn(v, n))),
        Err(e) => ensure(v >= n || v > lim, || format!("{} {} refused: {}", what, v, e)),
    }
}

fn c08(c: &mut Ctx) {
    c.rule("operands as arbitrary base integers (also unreduced, near 0, n, n/2 and multiples of n), histories of up to 12 ring operations on one accumulator; non-trivial: a sum reaches n, a difference is negative or a product reaches n");
    for t in types() {
        let n = t.n.clone();
        let lim = pow2(t.base_bits) - 1;
        let nb = (t.base_bits + 7) / 8;
        let mk = || {
            let n2 = n.clone();
            (elem(&n, &lim), elem(&n, &lim), 0..10u8,
             prop_oneof![2 => word(128), 2 => { let n = n.clone(); (-3..=3i32).prop_map(move |d| W(u128::from_str_radix(&modn(&(&n + d), &pow2(128)).to_str_radix(16), 16).unwrap())) }],
             prop_oneof![2 => word(128), 1 => (-5..300i128).prop_map(|x| W(x as u128))],
             bytes_of(prop_oneof![3 => Just(nb), 1 => Just(nb + 1), 2 => 0..=nb]),
             prop::collection::vec((0..6u8, elem(&n, &lim)), 0..12))
                .prop_map(move |(a, b, rel, lit, slit, bytes, ops)| {
                    let r = modn(&a.0, &n2);
                    let b = match rel { 0 => Big(&n2 - &r), 1 => Big(r), _ => b };
                    Ring { a, b, rel, lit, slit, bytes, ops }
                })
        };
        let check = |c: &Ring, r: &mut Rec| -> Res {
            let (a, b) = (modn(&c.a.0, &n), modn(&c.b.0, &n));
            r.class_if(&a + &b >= n, "sum-wraps");
            r.class_if(a < b, "difference-wraps");
            r.class_if(&a * &b >= n, "product-wraps");
            r.class_if(c.a.0 >= n, "unreduced-operand");
            r.nontrivial(&a + &b >= n || a < b || &a * &b >= n);
            let (x, y) = (&c.a.0, &c.b.0);
            let w = |v: BigInt| Big(modn(&v, &n));
            eq("the modulus", Big((t.modulus)()), Big(n.clone()))?;
            eq("representative", Big(no_panic("from base", || (t.of)(x))?), Big(a.clone()))?;
            eq("representative", Big(no_panic("from natural", || (t.of_uint)(x))?), Big(a.clone()))?;
            eq("a+b", Big(no_panic("+", || (t.add)(x, y))?), w(&a + &b))?;
            eq("a-b", Big(no_panic("-", || (t.sub)(x, y))?), w(&a - &b))?;
            eq("b-a", Big(no_panic("-", || (t.sub)(y, x))?), w(&b - &a))?;
            eq("a*b", Big(no_panic("*", || (t.mul)(x, y))?), w(&a * &b))?;
            eq("wrap_add", Big(no_panic("wrap_add", || (t.wadd)(x, y))?), w(&a + &b))?;
            eq("wrap_sub", Big(no_panic("wrap_sub", || (t.wsub)(x, y))?), w(&a - &b))?;
            eq("wrap_mul", Big(no_panic("wrap_mul", || (t.wmul)(x, y))?), w(&a * &b))?;
            eq("default", Big((t.zero)()), Big(big(0)))?;
            // history
            let ops: Vec<(u8, BigInt)> = c.ops.iter().map(|(k, v)| (*k, v.0.clone())).collect();
            let mut m = a.clone();
            for (k, v) in &ops {
                m = match k % 6 { 0 => &m + v, 1 => &m - v, 2 => v - &m, 3 => &m * v, 4 => &m + &m, _ => &m * &m };
                m = modn(&m, &n);
            }
            eq("history of operations", Big(no_panic("history", || (t.chain)(x, &ops))?), Big(m))?;
                let l = BigInt::from(c.lit.0);
            reduced_or_refused("literal", &l, &n, &n, || (t.lit)(c.lit.0))?;
            let s = c.slit.0 as i128;
            let l = BigInt::from(s);
            match caught(|| (t.slit)(s)) {
                Ok(g) => eq("signed literal", Big(g), w(l))?,
                Err(e) => ensure(s < 0 || l > n, || format!("signed literal {} rejected: {}", s, e))?,
            }
            // hexadecimal and bytes
            let hv = BigInt::from(BigUint::from_bytes_be(&c.bytes));
            reduced_or_refused("hexadecimal", &hv, &n, &lim, || (t.hex)(&hex(&c.bytes)))?;
            let lv = BigInt::from(BigUint::from_bytes_le(&c.bytes));
            reduced_or_refused("little-endian bytes", &lv, &n, &lim, || (t.le)(&c.bytes))
        };
        c.run(t.name, 20_000, 300_000, mk, check);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Field {
    a: Big,
    b: Big,
    e: W,
    lit: W,
    i: usize,
}

fn c09(c: &mut Ctx) {
    c.rule("elements as in C08, exponents over the full u128 range; non-trivial: the element is neither 0, 1 nor n-1 and the exponent exceeds 1");
    for t in types() {
        let n = t.n.clone();
        let lim = pow2(t.base_bits) - 1;
        let nb = (t.base_bits + 7) / 8;
        let mk = || {
            (elem(&n, &lim), prop_oneof![2 => elem(&n, &lim).boxed(), 1 => upto(big(17)).boxed()],
             prop_oneof![2 => word(128), 1 => (0..20u128).prop_map(W)], word(128), any::<usize>(), 0..12u8, any::<u16>())
                .prop_map(|(a, b, e, lit, i, rel, k)| {
                    // often an operand next to the other, or equal to it but for one byte
                    let m = pow2(8 * (k as usize / 256 % nb));
                    let b = match rel {
                        0 => Big(&a.0 + (k % 7)),
                        1 => Big(if a.0 > big(300) { &a.0 - (k % 257) } else { a.0.clone() }),
                        2 => Big(&a.0 ^ (big((k % 256) as u128) * m)),
                        _ => b,
                    };
                    Field { a, b, e, lit, i }
                })
        };
        let check = |c: &Field, r: &mut Rec| -> Res {
            let x = &c.a.0;
            let y = modn(&c.b.0, &(&lim + 1));
            let (a, b) = (modn(x, &n), modn(&y, &n));
            let zero = big(0);
            r.nontrivial(a > big(1) && a != &n - 1 && c.e.0 > 1);
            let bytes = no_panic("to_le_bytes", || (t.to_le)(x))?;
            ensure(bytes.len() <= nb, || format!("{} bytes", bytes.len()))?;
            eq("value of the byte encoding", Big(BigInt::from(BigUint::from_bytes_le(&bytes))), Big(a.clone()))?;
            eq("bytes round trip", Big(no_panic("from_le_bytes", || (t.le)(&bytes))?), Big(a.clone()))?;
            eq("decimal text", no_panic("format", || (t.show)(x))?, (a.to_string(), a.to_string()))?;
            for i in [0, c.i % (8 * nb), 8 * nb - 1] {
                eq("bit", no_panic("bit", || (t.bit)(x, i))?, ((&a >> i) & big(1)) == big(1))?;
            }
            if let Some(p) = &t.public {
                exact_or_panic("a/b", if b == zero { None } else { Some(Big(&a / &b)) }, || Big((p.div)(x, &y)))?;
                exact_or_panic("a%b", if b == zero { None } else { Some(Big(&a % &b)) }, || Big((p.rem)(x, &y)))?;
                eq("comparison", no_panic("cmp", || (p.cmp)(x, &y))?, (a == b, a != b, a < b, a <= b, a > b, a >= b, a.cmp(&b)))?;
                eq("comparison with itself", (p.cmp)(x, x).0, true)?;
                eq("pow", Big(no_panic("pow", || (p.pow)(x, c.e.0))?), Big(a.modpow(&BigInt::from(c.e.0), &n)))?;
                eq("pow_felem", Big(no_panic("pow_felem", || (p.pow_felem)(x, &y))?), Big(a.modpow(&b, &n)))?;
                let i = vh::big::inverse(&a, &n);
                r.class_if(i.is_none(), "no-inverse");
                exact_or_panic("inv", i.map(Big), || Big((p.inv)(x)))?;
                let (s, q) = no_panic("byte sequences", || (p.seq)(x))?;
                eq("secret and public byte sequences", &s, &q)?;
                eq("value of the byte sequence", Big(BigInt::from(BigUint::from_bytes_le(&s))), Big(a.clone()))?;
                ensure(s.len() <= nb, || format!("{} bytes", s.len()))?;
                eq("byte sequence round trip", Big(no_panic("from_byte_seq_le", || (p.from_seq)(&s))?), Big(a.clone()))?;
                let full = { let mut v = uint(x).to_bytes_le(); v.resize(nb, 0); v };
                eq("unreduced byte sequence", Big(no_panic("from_byte_seq_le", || (p.from_seq)(&full))?), Big(a.clone()))?;
                let l = BigInt::from(c.lit.0);
                reduced_or_refused("secret literal", &l, &n, &n, || (p.secret_lit)(c.lit.0))?;
            }
            Ok(())
        };
        c.run(t.name, 10_000, 150_000, mk, check);
    }
}

fn main() {
    main_with(&[("C08", c08), ("C09", c09)])
}
