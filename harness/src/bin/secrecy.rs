//! C05: the type system keeps secret values away from variable-time operations.
//! Small programs are generated, compiled by rustc against the library built from the working tree,
//! and judged per program: uses the documentation rules out must be rejected, the same uses on the
//! public counterpart and the documented secret operations must be accepted.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use vh::*;

// (secret type, public counterpart, kind)
const TYPES: &[(&str, &str, &str)] = &[
    ("U8", "u8", "mach"), ("U16", "u16", "mach"), ("U32", "u32", "mach"), ("U64", "u64", "mach"), ("U128", "u128", "mach"),
    ("I8", "i8", "smach"), ("I16", "i16", "smach"), ("I32", "i32", "smach"), ("I64", "i64", "smach"), ("I128", "i128", "smach"),
    ("SecA", "PubA", "abs"), ("SecS", "PubS", "abs"),
    ("SecU", "PubU", "big"), ("SecI", "PubI", "big"),
    ("SecF", "PubF", "nat"), ("SecG", "PubG", "nat"), ("SecRawF", "PubRawF", "nat"),
    ("SBytes", "PBytes", "arr"), ("SWords", "PWords", "arr"), ("SLongs", "PLongs", "arr"), ("SHalf", "PHalf", "arr"),
];
const PRE: &str = r#"#![allow(warnings)]
use hacspec::prelude::*;
use hacspec::*;
abstract_unsigned_secret_integer!(SecA, 256);
abstract_unsigned_public_integer!(PubA, 256);
abstract_signed_secret_integer!(SecS, 256);
abstract_signed_public_integer!(PubS, 256);
unsigned_integer!(SecU, 128);
unsigned_public_integer!(PubU, 128);
signed_integer!(SecI, 128);
signed_public_integer!(PubI, 128);
nat_mod!(SecF, SecFc, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
public_nat_mod!(PubF, PubFc, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
nat_mod!(SecG, SecGc, 24, "fffffd");
public_nat_mod!(PubG, PubGc, 24, "fffffd");
abstract_nat_mod!(SecRawF, SecRawFc, 128, "ffffffffffffffffffffffffffffff61");
abstract_public_nat_mod!(PubRawF, PubRawFc, 128, "ffffffffffffffffffffffffffffff61");
bytes!(SBytes, 16);
public_bytes!(PBytes, 16);
array!(SWords, 8, U32);
array!(PWords, 8, u32);
array!(SLongs, 4, U64);
array!(PLongs, 4, u64);
array!(SHalf, 4, U16);
array!(PHalf, 4, u16);
fn need_eq<X: PartialEq>(_: X) {}
fn need_ord<X: PartialOrd>(_: X) {}
fn need_div<X: std::ops::Div>(_: X) {}
fn gcmp<X: PartialOrd>(x: X, y: X) -> bool { x < y }
fn geq<X: PartialEq>(x: &X, y: &X) -> bool { x == y }
fn gdiv<X: std::ops::Div<Output = X>>(x: X, y: X) -> X { x / y }
"#;

/// (name, kinds it applies to, code, whether the public counterpart must accept it)
/// In the code `T` is the type under test, `a` and `b` values of it, `x` a byte array, `v` a vector of T.
const FORBIDDEN: &[(&str, &str, &str, bool)] = &[
    ("div", "mach smach abs big nat arr", "let _r = a / b;", true),
    ("rem", "mach smach abs big nat", "let _r = a % b;", true),
    ("div-assign", "mach smach", "let mut c = a; c /= b;", true),
    ("rem-assign", "mach smach", "let mut c = a; c %= b;", true),
    ("eq", "mach smach abs big nat arr", "let _r = a == b;", true),
    ("ne", "mach smach abs big nat arr", "let _r = a != b;", true),
    ("lt", "mach smach abs big nat", "let _r = a < b;", true),
    ("le", "mach smach abs big nat", "let _r = a <= b;", true),
    ("gt", "mach smach abs big nat", "let _r = a > b;", true),
    ("ge", "mach smach abs big nat", "let _r = a >= b;", true),
    ("lt-array", "arr", "let _r = a < b;", true),
    ("eq-reference", "mach smach abs big nat arr", "let _r = &a == &b;", true),
    ("eq-tuple", "mach smach abs big nat arr", "let _r = (a, b) == (b, a);", true),
    ("eq-slice", "mach smach abs big nat arr", "let _r = [a, b] == [b, a];", true),
    ("eq-option", "mach smach abs big nat arr", "let _r = Some(a) == None;", true),
    ("eq-vec", "mach smach abs big nat", "let _r = v == vec![a];", true),
    ("contains", "mach smach abs big nat arr", "let _r = v.contains(&a);", true),
    ("cmp", "mach smach abs big nat", "let _r = std::cmp::Ord::cmp(&a, &b);", true),
    ("min", "mach smach abs big nat", "let _r = std::cmp::min(a, b);", true),
    ("sort", "mach smach abs big nat", "let mut w = v.clone(); w.sort();", true),
    ("assert-eq", "mach smach abs big nat arr", "assert_eq!(a, b);", true),
    ("branch-eq", "mach smach abs big nat arr", "if a == b { let _ = 1; }", true),
    ("branch-lt", "mach smach abs big nat", "while a < b { break; }", true),
    ("bound-eq", "mach smach abs big nat arr", "need_eq(a);", true),
    ("bound-ord", "mach smach abs big nat", "need_ord(a);", true),
    ("bound-div", "mach smach abs big nat arr", "need_div(a);", true),
    ("generic-lt", "mach smach abs big nat", "let _r = gcmp(a, b);", true),
    ("generic-eq", "mach smach abs big nat arr", "let _r = geq(&a, &b);", true),
    ("generic-div", "mach smach abs big nat", "let _r = gdiv(a, b);", true),
    ("hash-key", "mach smach", "let mut h = std::collections::HashSet::new(); h.insert(a);", true),
    ("tree-key", "mach smach abs big nat", "let mut h = std::collections::BTreeSet::new(); h.insert(a);", true),
    ("range-loop", "mach smach", "for _i in a..b { break; }", true),
    ("range-contains", "mach smach", "let _r = (a..b).contains(&a);", true),
    ("if-value", "mach smach abs big nat arr", "if a { let _ = 1; }", false),
    ("while-value", "mach smach abs big nat arr", "while a { break; }", false),
    ("bool-cast", "mach smach abs big nat", "let _r: bool = a.into();", false),
    ("index-array", "mach smach abs big nat arr", "let _r = x[a];", false),
    ("index-vec", "mach smach abs big nat arr", "let _r = v[a];", false),
    ("index-slice-to", "mach smach", "let _r = &x[..a];", false),
    ("index-hacspec-array", "mach smach abs nat", "let _r = PBytes::new()[a];", false),
    ("index-hacspec-secret-array", "mach smach abs nat", "let _r = SBytes::new()[a];", false),
    ("index-hacspec-seq", "mach smach abs nat", "let _r = Seq::<u8>::new(4)[a];", false),
    ("index-write", "mach smach", "let mut y = SWords::new(); y[a] = U32(1);", false),
    ("get", "mach smach abs nat", "let _r = x.get(a);", false),
    ("match-literal", "mach smach", "match a { 0 => {}, _ => {} }", true),
    ("cast", "mach smach", "let _r = a as u128;", true),
    ("cast-usize", "mach smach", "let _r = x[a as usize];", true),
    ("implicit-declassify", "mach smach", "let _r: P = a;", true),
    ("public-argument", "mach smach", "fn f(_p: P) {} f(a);", true),
    ("shift-by-secret", "mach smach", "let _r = 1u64 << a;", true),
    ("secret-shift-by-secret", "mach smach", "let _r = U64(1) << a;", false),
    ("rotate-by-secret", "mach smach", "let _r = U64(1).rotate_left(a);", false),
    ("leading-zeros", "mach smach", "let _r = a.leading_zeros();", true),
    ("trailing-zeros", "mach smach", "let _r = a.trailing_zeros();", true),
    ("count-ones", "mach smach", "let _r = a.count_ones();", true),
    ("checked-div", "mach smach", "let _r = a.checked_div(b);", true),
    ("wrapping-rem", "mach smach", "let _r = a.wrapping_rem(b);", true),
    ("is-power-of-two", "mach", "let _r = a.is_power_of_two();", true),
    ("add-public", "mach smach", "let p: P = 1; let _r: T = a + p;", true),
    ("public-add", "mach smach", "let p: P = 1; let _r: T = p + a;", true),
    ("xor-public", "mach smach", "let p: P = 1; let _r: T = a ^ p;", true),
    ("add-literal", "mach smach", "let _r = a + 1;", true),
    ("eq-literal", "mach smach", "let _r = a == 0;", true),
    ("eq-public", "mach smach", "let p: P = 1; let _r = a == p;", true),
    ("partial-cmp", "mach smach abs big nat arr", "let _r = a.partial_cmp(&b);", true),
    ("max-method", "mach smach abs big nat", "let _r = a.max(b);", true),
    ("clamp", "mach smach abs big nat", "let _r = a.clamp(b, b);", true),
    ("iter-max", "mach smach abs big nat", "let _r = v.iter().max();", true),
    ("binary-search", "mach smach abs big nat", "let _r = v.binary_search(&a);", true),
    ("dedup", "mach smach abs big nat arr", "let mut w = v.clone(); w.dedup();", true),
    ("starts-with", "mach smach abs big nat arr", "let _r = v.starts_with(&[a]);", true),
    ("filter-eq", "mach smach abs big nat arr", "let _r = v.iter().filter(|y| **y == a).count();", true),
    ("iter-eq", "mach smach abs big nat arr", "let _r = v.iter().eq([a].iter());", true),
    ("array-of-arrays-eq", "mach smach abs big nat arr", "let _r = [[a], [b]] == [[b], [a]];", true),
    ("result-eq", "mach smach abs big nat arr", "let r: Result<T, u8> = Ok(a); let _r = r == Err(3);", true),
    ("assert-ne", "mach smach abs big nat arr", "assert_ne!(a, b);", true),
    ("derive-eq", "mach smach abs big nat arr", "#[derive(PartialEq)] struct D(T); let _r = D(a) == D(b);", true),
    ("derive-ord", "mach smach abs big nat", "#[derive(PartialEq, Eq, PartialOrd, Ord)] struct D(T); let _r = D(a) < D(b);", true),
    ("const-pattern", "mach smach", "const K: P = 3; match a { K => {}, _ => {} }", true),
    ("range-pattern", "mach smach", "match a { 0..=9 => {}, _ => {} }", true),
    ("if-let-literal", "mach smach", "if let 1 = a { let _ = 1; }", true),
    ("rem-public", "mach smach", "let p: P = 3; let _r = a % p;", true),
    ("div-public", "mach smach", "let p: P = 3; let _r = a / p;", true),
    ("public-rem", "mach smach", "let p: P = 3; let _r = p % a;", true),
    ("public-div", "mach smach", "let p: P = 3; let _r = p / a;", true),
    ("rem-literal", "mach smach", "let _r = a % 2;", true),
    ("div-reference", "mach smach", "let _r = &a / &b;", true),
    ("shift-assign-by-secret", "mach smach", "let mut c = 1u64; c <<= a;", true),
    ("secret-shift-assign-by-secret", "mach smach", "let mut c = U64(1); c >>= a;", false),
    ("repeat-by-secret", "mach smach abs nat", "let _r = [0u8; 4].repeat(a);", false),
    ("step-by-secret", "mach smach abs nat", "for _i in (0..9usize).step_by(a) { break; }", false),
    ("take-secret", "mach smach abs nat", "let _r = x.iter().take(a).count();", false),
    ("nth-secret", "mach smach abs nat", "let _r = x.iter().nth(a);", false),
    ("split-at-secret", "mach smach abs nat", "let _r = x.split_at(a);", false),
    ("truncate-by-secret", "mach smach abs nat", "let mut w = v.clone(); w.truncate(a);", false),
    ("swap-positions", "mach smach abs nat", "let mut w = v.clone(); w.swap(a, 0);", false),
    ("index-public-seq", "mach smach abs nat", "let _r = PublicSeq::<u8>::new(4)[a];", false),
    ("index-secret-seq", "mach smach abs nat", "let _r = Seq::<U8>::new(4)[a];", false),
    ("index-u32-array", "mach smach abs nat", "let _r = PWords::new()[a];", false),
    ("sub-at-secret", "mach smach abs nat", "let _r = Seq::<U8>::new(4).sub(a, 1);", false),
    ("chunk-at-secret", "mach smach abs nat", "let _r = Seq::<U8>::new(4).get_chunk(1, a);", false),
    ("update-at-secret", "mach smach abs nat", "let _r = Seq::<U8>::new(4).update(a, &Seq::<U8>::new(1));", false),
    ("new-seq-of-secret-length", "mach smach abs nat", "let _r = Seq::<U8>::new(a);", false),
    ("get-bit-at-secret", "mach smach", "let _r = U32(5).get_bit(a);", false),
    ("pow-by-secret", "mach smach", "let _r = 3u64.pow(a);", false),
    ("deref", "mach smach abs big nat", "let _r = *a;", false),
    ("deref-coercion", "mach smach", "let _r: &P = &a;", true),
    ("as-ref", "mach smach abs big nat", "let _r: &P = a.as_ref();", false),
    ("borrow", "mach smach", "let _r: &P = std::borrow::Borrow::<P>::borrow(&a);", true),
    ("hash-value", "abs big nat arr", "let mut h = std::collections::HashSet::new(); h.insert(a);", false),
    ("and-then-bool", "mach smach abs big nat", "let _r = a && true;", false),
    ("not-as-bool", "mach smach", "if !a { let _ = 1; }", false),
    ("public-seq-of-secrets", "mach smach", "let _s = PublicSeq::<T>::new(1);", true),
    ("index-of-vec-macro", "mach smach", "let _r = vec![0u8; a];", false),
];
/// Mixing two different secret widths, or signed with unsigned, needs an explicit conversion.
const MIXED: &[(&str, &str)] = &[
    ("U8", "U16"), ("U16", "U32"), ("U32", "U64"), ("U64", "U128"), ("U8", "U128"), ("I8", "I16"), ("I32", "I64"), ("U32", "I32"), ("I64", "U64"), ("U8", "I8"),
];
const MIX_OPS: &[&str] = &["+", "-", "*", "&", "|", "^"];
const ALLOWED: &[(&str, &str, &str)] = &[
    ("add", "mach smach abs big nat arr", "let _r: T = a + b;"),
    ("sub", "mach smach abs big nat arr", "let _r: T = a - b;"),
    ("mul", "mach smach abs big nat arr", "let _r: T = a * b;"),
    ("and", "mach smach arr", "let _r: T = a & b;"),
    ("or", "mach smach arr", "let _r: T = a | b;"),
    ("xor", "mach smach arr", "let _r: T = a ^ b;"),
    ("not", "mach smach", "let _r: T = !a;"),
    ("neg", "mach smach", "let _r: T = -a;"),
    ("shl", "mach smach", "let _r: T = a << 3u32;"),
    ("shr", "mach smach", "let _r: T = a >> 3u32;"),
    ("rotate", "mach smach", "let _r: T = a.rotate_left(5) ^ b.rotate_right(1);"),
    ("assign-ops", "mach smach", "let mut c = a; c += b; c -= b; c *= b; c ^= b; c &= b; c |= b; c <<= 1; c >>= 1;"),
    ("copy", "mach smach abs big nat arr", "let c = a; let _r = (a, c, a);"),
    ("masks", "mach smach", "let _r: T = T::comp_eq(a, b) & T::comp_lt(a, b) | T::comp_gte(a, b) ^ T::comp_ne(a, b);"),
    ("numeric-masks", "mach smach", "let _r: T = a.equal_bm(b) & a.less_than_bm(b);"),
    ("classify", "mach smach", "let p: P = 1; let _r: T = T::classify(p);"),
    ("from-public", "mach smach", "let p: P = 1; let _r: T = p.into();"),
    ("declassify", "mach smach", "let _r: P = a.declassify();"),
    ("explicit-index", "mach", "let _r = x[(a.declassify() % 16) as usize];"),
    ("explicit-branch", "mach smach", "if a.declassify() == b.declassify() { let _ = 1; }"),
    ("array-declassify-eq", "arr", "let _r: bool = a.declassify_eq(&b);"),
    ("array-index", "arr", "let _r = a[0];"),
    ("array-public-loop", "arr", "let mut c = a; for i in 0..a.len() { c[i] = a[i] ^ b[i]; }"),
    ("secret-seq", "mach smach", "let mut s = Seq::<T>::new(4); s[0] = a; let _r: T = s[1usize];"),
    ("vec-of-secrets", "mach smach abs big nat arr", "let w = vec![a, b]; let _r = w[1];"),
];
/// Ways to place the statement.
const CONTEXTS: &[(&str, &str)] = &[
    ("plain", "@"),
    ("block", "{ let a = b; @ }"),
    ("loop", "for _k in 0..2usize { @ }"),
    ("closure", "let f = move |a: T, b: T| { @ }; f(a, b);"),
    ("nested-fn", "fn inner(a: T, b: T, x: &[u8; 16], v: Vec<T>) { @ } inner(a, b, x, v);"),
    ("branch", "if x[0] > 3 { @ }"),
    ("shadow", "let (b, a) = (a, b); @"),
    ("deref", "let (a, b) = { let (p, q) = (&a, &b); (*p, *q) }; @"),
    ("struct", "struct S { a: T, b: T } let s = S { a, b }; let (a, b) = (s.a, s.b); @"),
    ("method", "struct S(T, T); impl S { fn m(&self, x: &[u8; 16], v: Vec<T>) { let (a, b) = (self.0, self.1); @ } } S(a, b).m(x, v);"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prog {
    /// statement, with T and P replaced, without context
    name: String,
    ty: String,
    code: String,
    ctx: usize,
    accept: bool,
}
fn subst(code: &str, t: &str, p: &str) -> String {
    // T and P are whole identifiers
    let mut out = String::new();
    let cs: Vec<char> = code.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < cs.len() {
        if id(cs[i]) {
            let mut j = i;
            while j < cs.len() && id(cs[j]) {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            out += match w.as_str() {
                "T" => t,
                "P" => p,
                _ => &w,
            };
            i = j;
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}
/// The whole space of programs (statement x type x secret/public), without contexts.
fn space() -> Vec<(String, String, String, bool)> {
    let mut v = vec![];
    for (t, p, kind) in TYPES {
        for (n, kinds, code, public_ok) in FORBIDDEN {
            if !kinds.split(' ').any(|k| k == *kind) {
                continue;
            }
            v.push((n.to_string(), t.to_string(), subst(code, t, p), false));
            // control: the public counterpart accepts the same statement
            let arr_lt = *kind == "arr" && matches!(*n, "div");
            if *public_ok && !arr_lt {
                v.push((format!("{}-on-public", n), p.to_string(), subst(code, p, p), true));
            }
        }
        for (n, kinds, code) in ALLOWED {
            if kinds.split(' ').any(|k| k == *kind) {
                v.push((n.to_string(), t.to_string(), subst(code, t, p), true));
            }
        }
    }
    for (t, u) in MIXED {
        for op in MIX_OPS {
            v.push((format!("mix{}", op), t.to_string(), format!("let c: {} = {}::from({}::default()); let _r = a {} c;", u, u, u, op), false));
            v.push((format!("mix{}-converted", op), t.to_string(), format!("let c: {} = {}::default(); let _r: {} = {}::from(a) {} c;", u, u, u, u, op), true));
        }
    }
    // no conversion unwraps a secret, into whatever public type, and no comparison takes one on either side
    let public = ["bool", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "char", "String", "Vec<u8>", "PubA", "PubS", "PubU", "PubI", "PubF", "PubG", "PubRawF", "PBytes", "PWords"];
    for (t, own, kind) in TYPES {
        for p in public {
            // the library's own explicit exits: an unsigned secret to an unsigned public type that holds it, a byte to an index
            let exit = *kind == "mach" && p.starts_with('u') && (p == "usize" && *t == "U8" || p[1..].parse::<u32>().map_or(false, |n| n >= t[1..].parse().unwrap()));
            if !exit {
                v.push(("into-public".into(), t.to_string(), format!("let _r: {} = a.into();", p), false));
                v.push(("from-secret".into(), t.to_string(), format!("let _r = <{}>::from(a);", p), false));
                v.push(("from-secret-reference".into(), t.to_string(), format!("let _r = <{}>::from(&a);", p), false));
                v.push(("try-into-public".into(), t.to_string(), format!("let _r = <{} as std::convert::TryFrom<{}>>::try_from(a);", p, t), false));
            }
            v.push(("eq-with-public".into(), t.to_string(), format!("fn f(a: {}, c: {}) -> bool {{ a == c }}", t, p), false));
            v.push(("public-eq-with".into(), t.to_string(), format!("fn f(a: {}, c: {}) -> bool {{ c == a }}", t, p), false));
            v.push(("lt-with-public".into(), t.to_string(), format!("fn f(a: {}, c: {}) -> bool {{ a < c }}", t, p), false));
            v.push(("public-gt".into(), t.to_string(), format!("fn f(a: {}, c: {}) -> bool {{ c > a }}", t, p), false));
        }
        for (u, _, k) in TYPES {
            if u == t { continue; }
            v.push(("eq-other-secret".into(), t.to_string(), format!("fn f(a: {}, c: {}) -> bool {{ a == c }}", t, u), false));
            v.push(("lt-other-secret".into(), t.to_string(), format!("fn f(a: {}, c: {}) -> bool {{ a < c }}", t, u), false));
            v.push(("div-other-secret".into(), t.to_string(), format!("fn f(a: {}, c: {}) {{ let _r = a / c; }}", t, u), false));
            if kind.ends_with("mach") && k.ends_with("mach") {
                v.push(("shift-by-other-secret".into(), t.to_string(), format!("fn f(a: {}, c: {}) {{ let _r = a << c; }}", t, u), false));
                v.push(("shift-right-by-other-secret".into(), t.to_string(), format!("fn f(a: {}, c: {}) {{ let _r = a >> c; }}", t, u), false));
            }
        }
        for (n, s) in [("SecretSeq", "SecretSeq::<U8>::new(16)"), ("Seq", "ByteSeq::new(16)"), ("slice", "[U8(0); 16]"), ("vector", "vec![U8(0); 16]"), ("word-seq", "Seq::<U32>::new(8)")] {
            v.push((format!("eq-with-{}", n), t.to_string(), format!("let c = {}; let _r = a == c;", s), false));
            v.push((format!("{}-eq-with", n), t.to_string(), format!("let c = {}; let _r = c == a;", s), false));
            v.push((format!("{}-indexed", n), t.to_string(), format!("let c = {}; let _r = c[a];", s), false));
        }
        // a mask is no condition either
        if kind.ends_with("mach") {
            for m in ["equal_bm", "not_equal_bm", "greater_than_bm", "less_than_or_equal_bm", "comp_eq", "comp_lt", "comp_gte"] {
                v.push(("branch-on-mask".into(), t.to_string(), format!("if a.{}(b) {{ let _ = 1; }}", m), false));
                v.push(("mask-as-bool".into(), t.to_string(), format!("let _r: bool = a.{}(b);", m), false));
                v.push(("mask-as-public".into(), t.to_string(), format!("let _r: {} = a.{}(b);", own, m), false));
            }
            v.push(("branch-on-bit".into(), t.to_string(), "if a.get_bit(0) { let _ = 1; }".into(), false));
            v.push(("bit-as-bool".into(), t.to_string(), "let _r: bool = a.get_bit(0);".into(), false));
        }
    }
    // a secret is no index: only the documented exit from a byte exists
    for t in ["U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128"] {
        v.push(("usize-from".into(), t.into(), "let _r = usize::from(a);".into(), false));
        v.push(("into-usize".into(), t.into(), "let i: usize = a.into(); let _r = x[i];".into(), false));
    }
    for t in ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128"] {
        v.push(("secret-seq-eq".into(), t.into(), format!("let s = SecretSeq::<{}>::new(2); let _r = s == s.clone();", t), false));
        v.push(("secret-seq-lt".into(), t.into(), format!("let s = SecretSeq::<{}>::new(2); let _r = s < s.clone();", t), false));
        v.push(("secret-seq-slice-eq".into(), t.into(), format!("let s = SecretSeq::<{}>::new(2); let _r = s[0..1] == s[1..2];", t), false));
        v.push(("seq-slice-eq".into(), t.into(), format!("let s = Seq::<{}>::new(2); let _r = s[0..1] == s[1..2];", t), false));
        v.push(("seq-iter-eq".into(), t.into(), format!("let s = Seq::<{}>::new(2); let _r = s.iter().eq(s.iter());", t), false));
        v.push(("secret-seq-of".into(), t.into(), format!("let mut s = SecretSeq::<{}>::new(2); s[0] = a; let _r = s.len();", t), true));
    }
    // sequences of secrets have no comparison operators (byte sequences are compared by an explicit exception)
    for t in ["U16", "U32", "U64", "U128", "I32"] {
        v.push(("seq-eq".into(), t.into(), format!("let s = Seq::<{}>::new(2); let _r = s == s.clone();", t), false));
        v.push(("seq-lt".into(), t.into(), format!("let s = Seq::<{}>::new(2); let _r = s < s.clone();", t), false));
        v.push(("generic-array-eq".into(), t.into(), format!("generic_array!(Gx, 4); let s = Gx::<{}>::new(); let _r = s == s;", t), false));
    }
    v
}
fn render(p: &Prog, n: usize) -> String {
    let ctx = CONTEXTS[p.ctx % CONTEXTS.len()].1;
    let body = subst(ctx, &p.ty, "P_UNUSED").replace('@', &p.code);
    format!("fn t{}(a: {ty}, b: {ty}, x: &[u8; 16], v: Vec<{ty}>) {{ {} }}", n, body, ty = p.ty)
}

struct Env {
    externs: Vec<String>,
    deps: String,
    tmp: PathBuf,
}
fn env() -> &'static Env {
    static E: OnceLock<Env> = OnceLock::new();
    E.get_or_init(|| {
        let dir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let out = Command::new("cargo")
            .args(["build", "--offline", "--quiet", "--message-format=json", "--bin", "secrecy"])
            .current_dir(format!("{}/harness", dir))
            .output()
            .expect("cargo");
        assert!(out.status.success(), "cargo build: {}", String::from_utf8_lossy(&out.stderr));
        let mut libs: BTreeMap<String, String> = BTreeMap::new();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let v: serde_json::Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            if v["reason"] == "compiler-artifact" {
                let n = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
                for f in v["filenames"].as_array().unwrap_or(&vec![]) {
                    let f = f.as_str().unwrap_or("");
                    if f.ends_with(".rlib") {
                        libs.insert(n.clone(), f.to_string());
                    }
                }
            }
        }
        let externs: Vec<String> = ["hacspec", "secret_integers", "abstract_integers"].iter().map(|n| format!("{}={}", n, libs.get(*n).unwrap_or_else(|| panic!("no rlib for {}", n)))).collect();
        let d = PathBuf::from(&libs["hacspec"]);
        let tmp = std::env::temp_dir().join(format!("vh-secrecy-{}", std::process::id()));
        std::fs::create_dir_all(&tmp).unwrap();
        // the dependency directory is where cargo keeps the hashed rlibs
        let deps = d.parent().unwrap();
        let deps = if deps.ends_with("deps") { deps.to_path_buf() } else { deps.join("deps") };
        Env { externs, deps: deps.to_string_lossy().into(), tmp }
    })
}
/// Compiles the programs together; for each, the first error attributed to its line.
fn compile(ps: &[Prog]) -> Vec<Option<String>> {
    static N: AtomicU64 = AtomicU64::new(0);
    let e = env();
    let pre_lines = PRE.lines().count();
    let mut src = PRE.to_string();
    for (i, p) in ps.iter().enumerate() {
        src += &render(p, i);
        src.push('\n');
    }
    src += "fn main() {}\n";
    let f = e.tmp.join(format!("p{}.rs", N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&f, &src).unwrap();
    let mut c = Command::new("rustc");
    c.args(["--edition", "2018", "--crate-type", "bin", "--emit=metadata", "--error-format=json", "--cap-lints=allow", "-o"]);
    c.arg(f.with_extension("meta"));
    c.arg("-L").arg(format!("dependency={}", e.deps));
    for x in &e.externs {
        c.arg("--extern").arg(x);
    }
    c.arg(&f);
    let out = c.output().expect("rustc");
    let mut res = vec![None; ps.len()];
    let mut unattributed = vec![];
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        let v: serde_json::Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(_) => continue,
        };
        if v["level"] != "error" {
            continue;
        }
        let msg = format!("{} {}", v["code"]["code"].as_str().unwrap_or(""), v["message"].as_str().unwrap_or(""));
        let mut hit = false;
        for s in v["spans"].as_array().unwrap_or(&vec![]) {
            // follow macro expansions back to the line in this file
            let mut s = s.clone();
            loop {
                if s["file_name"].as_str().map_or(false, |n| f.to_string_lossy().ends_with(n) || n == f.to_string_lossy()) {
                    let line = s["line_start"].as_u64().unwrap() as usize;
                    if s["is_primary"] == true && line > pre_lines && line <= pre_lines + ps.len() {
                        let k = line - pre_lines - 1;
                        res[k].get_or_insert(msg.clone());
                        hit = true;
                    }
                }
                if s["expansion"].is_null() {
                    break;
                }
                let mut n = s["expansion"]["span"].clone();
                n["is_primary"] = s["is_primary"].clone();
                s = n;
            }
        }
        if !hit && !msg.contains("aborting due to") {
            unattributed.push(msg);
        }
    }
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(f.with_extension("meta"));
    if !unattributed.is_empty() {
        // not about any program: an error of the harness
        eprintln!("unattributed compiler errors: {:?}", &unattributed[..unattributed.len().min(3)]);
        std::process::exit(5);
    }
    if !out.status.success() && res.iter().all(|r| r.is_none()) {
        eprintln!("rustc failed without a diagnostic: {}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(5);
    }
    res
}
fn check(ps: &Vec<Prog>, r: &mut Rec) -> Res {
    let res = compile(ps);
    for (p, e) in ps.iter().zip(res) {
        r.class(if p.accept { "must-compile" } else { "must-be-rejected" });
        r.class(format!("context={}", CONTEXTS[p.ctx % CONTEXTS.len()].0));
        r.class(format!("use={}", p.name.trim_end_matches("-on-public")));
        r.nontrivial(!p.accept);
        if let (false, Some(m)) = (p.accept, &e) {
            r.class(format!("rejected-by={}", m.split(' ').next().unwrap()));
        }
        match (p.accept, e) {
            (true, Some(m)) => return Err(format!("{} on {} must compile, but: {} — {}", p.name, p.ty, m, render(p, 0))),
            (false, None) => return Err(format!("{} on {} must be rejected by the compiler, but it compiles — {}", p.name, p.ty, render(p, 0))),
            _ => {}
        }
    }
    Ok(())
}

fn c05(ctx: &mut Ctx) {
    ctx.rule("the batch contains at least one program that the compiler has to reject; counts are batches, the classes count programs");
    let sp = space();
    ctx.note("programs_in_space_per_context", sp.len());
    ctx.note("contexts", CONTEXTS.len());
    // every statement on every type, once, the context varying with the position
    let all: Vec<Prog> = sp.iter().enumerate().map(|(i, (n, t, c, a))| Prog { name: n.clone(), ty: t.clone(), code: c.clone(), ctx: if ctx.thorough() { 0 } else { i * 7 + i / 10 }, accept: *a }).collect();
    let mut batches: Vec<Vec<Prog>> = all.chunks(120).map(|c| c.to_vec()).collect();
    if ctx.thorough() {
        for k in 1..CONTEXTS.len() {
            batches.extend(all.chunks(120).map(|c| c.iter().cloned().map(|mut p| { p.ctx = k; p }).collect::<Vec<_>>()));
        }
    }
    ctx.exhaust("every-use-on-every-type", batches.into_iter(), check);
    ctx.run(
        "random-placement",
        48,
        600,
        || {
            let sp = space();
            prop::collection::vec((0..sp.len(), 0..CONTEXTS.len()), 1..80).prop_map(move |v| {
                v.into_iter()
                    .map(|(i, c)| { let (n, t, code, a) = sp[i].clone(); Prog { name: n, ty: t, code, ctx: c, accept: a } })
                    .collect::<Vec<_>>()
            })
        },
        check,
    );
    let _ = std::fs::remove_dir_all(&env().tmp);
}

fn main() {
    main_with(&[("C05", c05)])
}
