//! C12..C15: arrays and sequences against plain vectors.
use hacspec::prelude::*;
use hacspec::*;
use vh::*;

// ---------------------------------------------------------------- containers under test
bytes!(B1, 1);
bytes!(B7, 7);
bytes!(B33, 33);
array!(S16x5, 5, U16);
array!(S32x9, 9, U32);
array!(S64x16, 16, U64);
array!(S128x3, 3, U128);
public_bytes!(P8x13, 13);
array!(P16x4, 4, u16);
array!(P32x8, 8, u32);
array!(P64x25, 25, u64);
array!(P128x2, 2, u128);
array!(I32x6, 6, i32);
generic_array!(Gen11, 11);
generic_array!(Gen150, 150);
both_bytes!(BothP, BothS, 19);
both_arrays!(BothPw, BothSw, 6, U32, u32);

bytes!(B300, 300);
array!(S64x270, 270, U64);
array!(P32x300, 300, u32);
public_bytes!(P8x1000, 1000);
bytes!(LargeS, 66001);
array!(LargeP, 65600, u16);

/// How elements of a container map to the plain words of the model.
trait Elem: Copy + Default {
    const BITS: u32;
    fn of(w: u128) -> Self;
    fn w(self) -> u128;
}
macro_rules! elem_sec { ($($T:ident $t:ident $u:ident),*) => {$(
    impl Elem for $T { const BITS: u32 = <$t>::BITS; fn of(w: u128) -> Self { $T::classify(w as $t) } fn w(self) -> u128 { self.declassify() as $u as u128 } }
    impl Elem for $t { const BITS: u32 = <$t>::BITS; fn of(w: u128) -> Self { w as $t } fn w(self) -> u128 { self as $u as u128 } }
)*} }
elem_sec!(U8 u8 u8, U16 u16 u16, U32 u32 u32, U64 u64 u64, U128 u128 u128, I8 i8 u8, I16 i16 u16, I32 i32 u32, I64 i64 u64, I128 i128 u128);

fn ws<T: Elem>(v: &[W]) -> Vec<T> {
    v.iter().map(|w| T::of(w.0)).collect()
}
fn wd<'a, T: Elem + 'a>(it: impl Iterator<Item = &'a T>) -> Vec<W> {
    it.map(|e| W(e.w())).collect()
}
fn words(bits: u32, n: impl Into<prop::collection::SizeRange>) -> impl Strategy<Value = Vec<W>> {
    let one = prop_oneof![4 => any::<u128>().prop_map(move |x| W(x & mask(bits))), 1 => word(bits)];
    prop::collection::vec(one, n)
}

// ---------------------------------------------------------------- C12: operation histories
/// Positions are given relative to the current length so that shrinking keeps them meaningful:
/// the model decides which of them are inside the container.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set { i: usize, ix: u8, v: W },
    Get { i: i64, ix: u8 },
    UpdateSub { out: usize, src: Vec<W>, at: usize, len: usize },
    UpdateSelf { out: usize, at: usize, len: usize },
    Update { at: usize, src: Vec<W> },
    UpdateStart { src: Vec<W> },
    SetChunk { size: usize, k: usize, extra: i8, fill: W },
    Sub { at: usize, len: usize },
    Rebuild { how: u8 },
    FromSub { src: Vec<W>, at: usize, len: usize },
    FromSlice { src: Vec<W> },
    FromVec { src: Vec<W> },
    FromSeq { src: Vec<W> },
    ReadRange { a: usize, b: usize },
    SetNegative { i: i32, v: W },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    init: Vec<W>,
    ops: Vec<Op>,
}

fn history(bits: u32, fixed: Option<usize>) -> impl Strategy<Value = History> {
    let n0 = match fixed {
        Some(l) => Just(l).boxed(),
        None => prop_oneof![1 => Just(0usize), 1 => Just(1usize), 8 => 2..40usize, 1 => 250..260usize].boxed(),
    };
    n0.prop_flat_map(move |n| {
        let far = || prop_oneof![
            2 => Just(usize::MAX),
            // positions that a narrower index type would fold back inside
            3 => (0..=n, prop::sample::select(vec![8u32, 15, 16, 24, 31, 32, 33, 48, 63])).prop_map(|(i, b)| i + (1usize << b)),
            1 => (0..=n, prop::sample::select(vec![8u32, 16, 32, 63])).prop_map(|(i, b)| (1usize << b).wrapping_sub(i + 1)),
        ];
        let pos = || prop_oneof![8 => 0..=n, 1 => n..n + 3, 1 => far()];
        let len = || prop_oneof![8 => 0..=n, 1 => n..n + 3];
        let sw = move || words(bits, 0..n + 3);
        let exact = move || prop_oneof![5 => words(bits, n..=n).boxed(), 1 => words(bits, 0..n + 3).boxed()];
        let op = prop_oneof![
            3 => (pos(), 0..4u8, word(bits)).prop_map(|(i, ix, v)| Op::Set { i, ix, v }),
            1 => (-2..(n as i64 + 2), 0..4u8).prop_map(|(i, ix)| Op::Get { i, ix }),
            1 => (far(), 0..4u8).prop_map(|(i, ix)| Op::Get { i: (i >> 1) as i64, ix }),
            6 => (sw(), 0..n + 1, 0..n + 1, 0..n + 1, pos(), len(), 0..6u8).prop_map(move |(src, a, b, c, p, l, k)| {
                // mostly in range: choose len first, then both offsets below what is left
                let m = src.len().min(n);
                let l2 = if m == 0 { 0 } else { c % (m + 1) };
                let out = a % (n - l2 + 1);
                let at = b % (src.len() - l2 + 1);
                match k { 0 => Op::UpdateSub { out: p, src, at, len: l2 }, 1 => Op::UpdateSub { out, src, at: p, len: l2 },
                          2 => Op::UpdateSub { out, src, at, len: l }, _ => Op::UpdateSub { out, src, at, len: l2 } }
            }),
            2 => (0..n + 1, 0..n + 1, 0..n + 1).prop_map(move |(a, b, l)| Op::UpdateSelf { out: a % (n - l + 1), at: b % (n - l + 1), len: l }),
            2 => (pos(), sw()).prop_map(move |(at, mut src)| { if at <= n && src.len() + at <= n + 1 { } else if at < n { src.truncate(n - at); } Op::Update { at, src } }),
            1 => sw().prop_map(|src| Op::UpdateStart { src }),
            3 => (1..n + 3, 0..n + 1, prop_oneof![6 => Just(0i8), 1 => -1..=1i8], word(bits)).prop_map(move |(size, k, extra, fill)| {
                let nc = (n + size - 1) / size; Op::SetChunk { size, k: if nc == 0 { 0 } else { k % nc }, extra, fill } }),
            2 => (pos(), len()).prop_map(|(at, len)| Op::Sub { at, len }),
            2 => (0..6u8).prop_map(|how| Op::Rebuild { how }),
            1 => (sw(), 0..n + 2, len()).prop_map(|(src, at, len)| Op::FromSub { src, at, len }),
            1 => (words(bits, n..2 * n + 3), 0..n + 2, Just(n)).prop_map(|(src, at, len)| Op::FromSub { src, at, len }),
            1 => sw().prop_map(|src| Op::FromSlice { src }),
            1 => exact().prop_map(|src| Op::FromVec { src }),
            1 => exact().prop_map(|src| Op::FromSeq { src }),
            2 => (pos(), pos()).prop_map(|(a, b)| Op::ReadRange { a, b }),
            1 => (pos(), 0..3usize).prop_map(move |(a, d)| Op::ReadRange { a: a.min(n), b: n + d }),
            1 => (prop_oneof![-3..0i32, Just(i32::MIN), any::<i32>().prop_map(|x| x | i32::MIN)], word(bits)).prop_map(|(i, v)| Op::SetNegative { i, v }),
        ];
        (words(bits, n..=n), prop::collection::vec(op, 1..20)).prop_map(|(init, ops)| History { init, ops })
    })
}

/// `new`: the state after a successful operation; None: the operation must be rejected.
fn fits(at: usize, len: usize, total: usize) -> bool {
    at.checked_add(len).map_or(false, |e| e <= total)
}

macro_rules! hist {
    ($c:expr, $name:expr, $Ty:ty, $E:ty, $fixed:expr, seqlike = $seq:tt) => {{
        let check = |h: &History, r: &mut Rec| -> Res {
            let fixed: Option<usize> = $fixed;
            let mut m: Vec<W> = h.init.clone();
            let mut c: $Ty = <$Ty>::from_vec(ws::<$E>(&m));
            let n = m.len();
            // fresh containers are all default
            let fresh = <$Ty as SeqTrait<$E>>::create(n);
            eq("create", wd::<$E>(SeqTrait::iter(&fresh)), vec![W(0); n])?;
            let dflt = <$Ty>::default();
            eq("default", wd::<$E>(SeqTrait::iter(&dflt)), vec![W(0); fixed.unwrap_or(0)])?;
            if fixed.is_some() {
                must_panic("create with another length", || SeqTrait::len(&<$Ty as SeqTrait<$E>>::create(n + 1)))?;
            }
            let mut changed = 0;
            let mut rejected = 0;
            for (step, op) in h.ops.iter().enumerate() {
                let w = |s: &str| format!("step {} {}", step, s);
                let before = m.clone();
                let keep = c.clone();
                // outcome: Ok(new container) or Err(panic); want: Some(new model) or None
                let mut want: Option<Vec<W>> = None;
                let mut unjudged_reject = false;
                let n = m.len();
                let got: Result<$Ty, String> = match op.clone() {
                    Op::Set { i, ix, v } => {
                        if i < n { let mut k = m.clone(); k[i] = v; want = Some(k); }
                        let mut d = c.clone();
                        caught(move || { match ix {
                            1 if i <= 255 => d[i as u8] = <$E>::of(v.0),
                            2 if i < 1 << 32 => d[i as u32] = <$E>::of(v.0),
                            3 if i < 1 << 31 => d[i as i32] = <$E>::of(v.0),
                            _ => d[i] = <$E>::of(v.0),
                        } d })
                    }
                    Op::Get { i, ix } => {
                        let wv = if i >= 0 && (i as usize) < n { Some(m[i as usize]) } else { None };
                        let g = |c: &$Ty| W(match ix {
                            1 if (0..256).contains(&i) => c[i as u8].w(),
                            2 if (0..1i64 << 32).contains(&i) => c[i as u32].w(),
                            3 if (-1i64 << 31..1i64 << 31).contains(&i) => c[i as i32].w(),
                            _ => c[i as usize].w(),
                        });
                        exact_or_panic(&w("read"), wv, || g(&c))?;
                        want = Some(m.clone());
                        Ok(c.clone())
                    }
                    Op::ReadRange { a, b } => {
                        hist!(@range $seq, c, m, $E, w, a, b);
                        want = Some(m.clone());
                        Ok(c.clone())
                    }
                    Op::SetNegative { i, v } => {
                        let mut d = c.clone();
                        let res = caught(move || { d[i] = <$E>::of(v.0); d });
                        must_panic(&w("read at a negative index"), || W(c[i].w()))?;
                        res
                    }
                    Op::UpdateSub { out, src, at, len } => {
                        if fits(out, len, n) && fits(at, len, src.len()) {
                            let mut k = m.clone(); k[out..out + len].copy_from_slice(&src[at..at + len]); want = Some(k);
                        } else { unjudged_reject = len == 0; }
                        let s: Seq<$E> = Seq::from_vec(ws::<$E>(&src));
                        let d = c.clone();
                        let res = caught(|| d.update_sub(out, &s, at, len));
                        eq(&w("source of an update"), wd::<$E>(s.iter()), src.clone())?;
                        res
                    }
                    Op::UpdateSelf { out, at, len } => {
                        if fits(out, len, n) && fits(at, len, n) {
                            let mut k = m.clone(); k[out..out + len].copy_from_slice(&m[at..at + len]); want = Some(k);
                        } else { unjudged_reject = len == 0; }
                        let d = c.clone();
                        caught(|| d.update_sub(out, &c, at, len))
                    }
                    Op::Update { at, src } => {
                        if fits(at, src.len(), n) {
                            let mut k = m.clone(); k[at..at + src.len()].copy_from_slice(&src); want = Some(k);
                        } else { unjudged_reject = src.is_empty(); }
                        let s: Seq<$E> = Seq::from_vec(ws::<$E>(&src));
                        let d = c.clone();
                        caught(|| d.update(at, &s))
                    }
                    Op::UpdateStart { src } => {
                        if src.len() <= n { let mut k = m.clone(); k[..src.len()].copy_from_slice(&src); want = Some(k); }
                        let s: Seq<$E> = Seq::from_vec(ws::<$E>(&src));
                        let d = c.clone();
                        caught(|| d.update_start(&s))
                    }
                    Op::SetChunk { size, k, extra, fill } => {
                        let at = size * k;
                        if at >= n { want = Some(m.clone()); Ok(c.clone()) } else {
                            let cl = size.min(n - at);
                            let il = (cl as i64 + extra as i64) as usize;
                            let src: Vec<W> = (0..il).map(|j| W((fill.0 ^ j as u128) & mask(<$E>::BITS))).collect();
                            if il == cl { let mut k = m.clone(); k[at..at + cl].copy_from_slice(&src); want = Some(k); }
                            let s: Seq<$E> = Seq::from_vec(ws::<$E>(&src));
                            let d = c.clone();
                            caught(|| d.set_chunk(size, k, &s))
                        }
                    }
                    Op::Sub { at, len } => {
                        let wv = if fits(at, len, n) { Some(m[at..at + len].to_vec()) } else { None };
                        if wv.is_some() || len > 0 {
                            exact_or_panic(&w("sub"), wv.clone(), || wd::<$E>(SeqTrait::iter(&<$Ty>::sub(&c, at, len))))?;
                            if at.checked_add(len).is_some() {
                                exact_or_panic(&w("subr"), wv.clone(), || wd::<$E>(SeqTrait::iter(&<$Ty>::subr(&c, at..at + len))))?;
                                exact_or_panic(&w("sequence from_sub"), wv.clone(), || wd::<$E>(Seq::<$E>::from_sub(&c, at, len).iter()))?;
                                exact_or_panic(&w("sequence from_sub_range"), wv, || wd::<$E>(Seq::<$E>::from_sub_range(&c, at..at + len).iter()))?;
                            }
                        }
                        want = Some(m.clone());
                        Ok(c.clone())
                    }
                    Op::Rebuild { how } => {
                        want = Some(m.clone());
                        caught(|| match how {
                            0 => <$Ty>::from_vec(SeqTrait::iter(&c).copied().collect()),
                            1 => <$Ty>::from_seq(&c),
                            2 => <$Ty>::from_slice(&SeqTrait::iter(&c).copied().collect::<Vec<$E>>()),
                            3 => <$Ty>::from_sub(&c, 0, n),
                            4 => <$Ty>::from_sub_range(&c, 0..n),
                            _ => <$Ty>::from_seq(&Seq::<$E>::from_seq(&c)),
                        })
                    }
                    Op::FromSub { src, at, len } => {
                        if fits(at, len, src.len()) && fixed.map_or(true, |l| len == l) { want = Some(src[at..at + len].to_vec()); }
                        else { unjudged_reject = len == 0 && fixed.is_none(); }
                        let s: Seq<$E> = Seq::from_vec(ws::<$E>(&src));
                        caught(|| <$Ty>::from_sub(&s, at, len))
                    }
                    Op::FromSlice { src } => {
                        match fixed {
                            Some(l) if src.len() <= l => { let mut k = src.clone(); k.resize(l, W(0)); want = Some(k); }
                            Some(_) => {}
                            None => want = Some(src.clone()),
                        }
                        caught(|| <$Ty>::from_slice(&ws::<$E>(&src)))
                    }
                    Op::FromVec { src } => {
                        if fixed.map_or(true, |l| src.len() == l) { want = Some(src.clone()); }
                        caught(|| <$Ty>::from_vec(ws::<$E>(&src)))
                    }
                    Op::FromSeq { src } => {
                        if fixed.map_or(true, |l| src.len() == l) { want = Some(src.clone()); }
                        let s: Seq<$E> = Seq::from_vec(ws::<$E>(&src));
                        caught(|| <$Ty>::from_seq(&s))
                    }
                };
                match (want, got) {
                    (Some(k), Ok(d)) => {
                        eq(&w(&format!("{:?}", op)), wd::<$E>(SeqTrait::iter(&d)), k.clone())?;
                        if k != m { changed += 1; }
                        m = k;
                        c = d;
                    }
                    (Some(_), Err(e)) => return Err(format!("{}: {:?} panicked: {}", w(""), op, e)),
                    (None, Err(_)) => rejected += 1,
                    (None, Ok(d)) => {
                        if !unjudged_reject {
                            return Err(format!("{}: {:?} must be rejected, left {:?}", w(""), op, wd::<$E>(SeqTrait::iter(&d))));
                        }
                        eq(&w("empty update out of range"), wd::<$E>(SeqTrait::iter(&d)), m.clone())?;
                    }
                }
                // the container the operation started from is unchanged: updates are by value
                eq(&w("earlier value"), wd::<$E>(SeqTrait::iter(&keep)), before)?;
                // every view of the container agrees
                eq(&w("len"), (c.len(), SeqTrait::len(&c)), (m.len(), m.len()))?;
                for i in 0..m.len() {
                    eq(&w("index"), W(c[i].w()), m[i])?;
                }
                hist!(@views $seq, c, m, $E, w);
            }
            r.nontrivial(changed >= 2);
            r.class_if(rejected > 0, "has-rejected-step");
            r.class_if(changed >= 5, "five-or-more-effective-steps");
            Ok(())
        };
        let fixed: Option<usize> = $fixed;
        $c.run($name, 4_000, 80_000, move || history(<$E>::BITS, fixed), check);
    }};
    (@range array, $c:ident, $m:ident, $E:ty, $w:ident, $a:ident, $b:ident) => { let _ = ($a, $b); };
    (@range seq, $c:ident, $m:ident, $E:ty, $w:ident, $a:ident, $b:ident) => {
        let wv = if $a <= $b && $b <= $m.len() { Some($m[$a..$b].to_vec()) } else { None };
        exact_or_panic(&$w("range read"), wv, || wd::<$E>($c[$a..$b].iter()))?;
    };
    (@views array, $c:ident, $m:ident, $E:ty, $w:ident) => {
        eq(&$w("full range"), wd::<$E>($c[..].iter()), $m.clone())?;
        eq(&$w("field"), wd::<$E>($c.0.iter()), $m.clone())?;
    };
    (@views seq, $c:ident, $m:ident, $E:ty, $w:ident) => {
        let (a, b) = ($m.len() / 3, $m.len() - $m.len() / 4);
        if a <= b { eq(&$w("range"), wd::<$E>($c[a..b].iter()), $m[a..b].to_vec())?; }
    };
}

/// Containers with more elements than a 16-bit position can name.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    len: usize,
    fill: u64,
    ops: Vec<(u8, usize, usize, usize, u8)>,
}
/// Containers of some hundreds or thousands of elements.
fn middle(fixed: Option<usize>) -> impl Strategy<Value = Large> {
    let n = match fixed { Some(n) => Just(n).boxed(), None => prop_oneof![2 => 60..300usize, 3 => 300..1500usize, 1 => 1500..6000usize, 1 => prop::sample::select(vec![64usize, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097])].boxed() };
    n.prop_flat_map(|len| {
        let pos = move || prop_oneof![4 => 0..len, 1 => len - 20..len];
        let op = (0..17u8, pos(), pos(), prop_oneof![2 => 0..40usize, 2 => 0..=len, 1 => Just(len)], any::<u8>());
        (any::<u64>(), prop::collection::vec(op, 3..12)).prop_map(move |(fill, ops)| Large { len, fill, ops })
    })
}
fn large(fixed: Option<usize>) -> impl Strategy<Value = Large> {
    let pos = || prop_oneof![2 => 0..300usize, 3 => 65530..65545usize, 2 => 65536..66000usize, 2 => any::<u32>().prop_map(|x| x as usize)];
    (match fixed { Some(n) => Just(n).boxed(), None => prop_oneof![Just(65535usize), Just(65536), Just(65537), 65538..70000usize, 131070..131080usize].boxed() }, any::<u64>(),
     prop::collection::vec((0..17u8, pos(), pos(), prop_oneof![2 => 0..40usize, 1 => pos()], any::<u8>()), 3..12))
        .prop_map(|(len, fill, ops)| Large { len, fill, ops })
}
macro_rules! large {
    (@view seq, $c:ident, $a:expr, $b:expr) => { $c[$a..$b] };
    (@view array, $c:ident, $a:expr, $b:expr) => { $c[..][$a..$b] };
    ($c:expr, $name:expr, $Ty:ty, $E:ty, $fixed:expr, $kind:ident) => { large!($c, $name, $Ty, $E, $fixed, $kind, large, 60, 1_500); };
    ($c:expr, $name:expr, $Ty:ty, $E:ty, $fixed:expr, $kind:ident, $gen:ident, $quick:expr, $deep:expr) => {
        $c.run($name, $quick, $deep, || $gen($fixed), |l: &Large, r: &mut Rec| -> Res {
            let n = l.len;
            let byte = |i: usize| ((i as u64 ^ (i as u64 >> 8)).wrapping_mul(l.fill | 1) >> 9) as u8;
            let mut m: Vec<u8> = (0..n).map(byte).collect();
            let mut c = Box::new(<$Ty>::from_vec(m.iter().map(|b| <$E>::of(*b as u128)).collect()));
            let same = |what: &str, c: &$Ty, m: &[u8]| -> Res {
                ensure(c.len() == m.len(), || format!("{}: length {} instead of {}", what, c.len(), m.len()))?;
                match SeqTrait::iter(c).zip(m).position(|(x, y)| x.w() != *y as u128) {
                    None => Ok(()),
                    Some(i) => Err(format!("{}: element {} differs", what, i)),
                }
            };
            let mut far = 0;
            for (k, p, q, len, v) in &l.ops {
                let (p, q) = (p % n, q % n);
                let len = (*len).min(n - p).min(n - q);
                if p > 65535 || p + len > 65536 || (n < 65535 && len > 0) { far += 1; }
                let e = <$E>::of(*v as u128);
                let at = |c: &$Ty, i: usize| (c[i].w(), c[i as u32].w(), c[i as i32].w());
                match k {
                    0 => { no_panic("write", || c[p] = e)?; m[p] = *v; }
                    1 => { no_panic("write", || c[p as u32] = e)?; m[p] = *v; }
                    2 => { no_panic("write", || c[p as i32] = e)?; m[p] = *v; }
                    3 => { no_panic("write", || c[p as u8] = e)?; m[p & 255] = *v; }
                    4 | 5 => {
                        let s: Seq<$E> = Seq::from_vec((0..n).map(|i| <$E>::of(byte(i + 7) as u128)).collect());
                        c = no_panic("update_sub", || Box::new(c.update_sub(p, &s, q, len)))?;
                        for i in 0..len { m[p + i] = byte(q + i + 7); }
                    }
                    6 => {
                        let s: Seq<$E> = Seq::from_vec((0..len).map(|i| <$E>::of(byte(i + 3) as u128)).collect());
                        c = no_panic("update", || Box::new(c.update(p, &s)))?;
                        for i in 0..len { m[p + i] = byte(i + 3); }
                    }
                    7 => {
                        let s = no_panic("sub", || <$Ty>::sub(&c, p, len))?;
                        ensure(SeqTrait::iter(&s).map(|x| x.w() as u8).eq(m[p..p + len].iter().cloned()), || format!("slice {}..{}", p, p + len))?;
                    }
                    8 | 9 => {
                        let size = 1 + q % 70_000;
                        let chunks = (n + size - 1) / size;
                        eq("number of chunks", c.num_chunks(size), chunks)?;
                        let k = p % chunks;
                        let end = n.min((k + 1) * size);
                        let (cl, g) = no_panic("get_chunk", || c.get_chunk(size, k))?;
                        ensure(cl == end - k * size && g.iter().map(|x| x.w() as u8).eq(m[k * size..end].iter().cloned()), || format!("chunk {} of size {}", k, size))?;
                        let s: Seq<$E> = Seq::from_vec((0..cl).map(|i| <$E>::of(byte(i + 5) as u128)).collect());
                        c = no_panic("set_chunk", || Box::new(c.set_chunk(size, k, &s)))?;
                        for i in 0..cl { m[k * size + i] = byte(i + 5); }
                    }
                    10 => c = no_panic("from_seq", || Box::new(<$Ty>::from_seq(&*c)))?,
                    11 => c = no_panic("from_slice", || Box::new(<$Ty>::from_slice(&SeqTrait::iter(&*c).cloned().collect::<Vec<$E>>())))?,
                    12 => {
                        // from a longer sequence
                        let s: Seq<$E> = Seq::from_vec((0..n + p).map(|i| <$E>::of(byte(i + 9) as u128)).collect());
                        c = if v % 2 == 0 { no_panic("from_sub", || Box::new(<$Ty>::from_sub(&s, p, n)))? } else { no_panic("from_sub_range", || Box::new(<$Ty>::from_sub_range(&s, p..p + n)))? };
                        for i in 0..n { m[i] = byte(p + i + 9); }
                    }
                    13 => {
                        let s = no_panic("subr", || <$Ty>::subr(&c, p..p + len))?;
                        ensure(SeqTrait::iter(&s).map(|x| x.w() as u8).eq(m[p..p + len].iter().cloned()), || format!("slice {}..{}", p, p + len))?;
                        c = no_panic("update_start", || Box::new(c.update_start(&s)))?;
                        m.copy_within(p..p + len, 0);
                    }
                    14 | 15 => {
                        let got: Vec<u8> = no_panic("view", || large!(@view $kind, c, 0, n).iter().map(|x| x.w() as u8).collect())?;
                        ensure(got == m, || "view of the whole".to_string())?;
                        let got: Vec<u8> = no_panic("view", || large!(@view $kind, c, p, p + len).iter().map(|x| x.w() as u8).collect())?;
                        ensure(got[..] == m[p..p + len], || format!("view {}..{}", p, p + len))?;
                    }
                    _ => {
                        must_panic("read past the end", || c[n as u32 + (p as u32 & 0xff)].w())?;
                        must_panic("read past the end", || c[n + (p << 16)].w())?;
                    }
                }
                for i in [p, q, 0, n - 1] {
                    let b = m[i] as u128;
                    eq(&format!("read at {}", i), at(&c, i), (b, b, b))?;
                }
                eq("read at a byte position", c[p as u8].w(), m[p & 255] as u128)?;
                same(&format!("operation {}", k), &c, &m)?;
            }
            r.nontrivial(far >= 2);
            Ok(())
        });
    };
}

fn c12(c: &mut Ctx) {
    c.rule("histories of 1..20 construct/read/write/update/slice operations on one container, compared with a plain vector after each step; non-trivial: at least two steps changed the contents");
    macro_rules! arr { ($T:ty, $E:ty, $l:expr) => { hist!(c, concat!("array-", stringify!($T)), $T, $E, Some($l), seqlike = array); } }
    macro_rules! sq { ($T:ty, $E:ty) => { hist!(c, &stringify!($T).replace(' ', ""), $T, $E, None, seqlike = seq); } }
    arr!(B1, U8, 1);
    arr!(B7, U8, 7);
    arr!(B33, U8, 33);
    arr!(S16x5, U16, 5);
    arr!(S32x9, U32, 9);
    arr!(S64x16, U64, 16);
    arr!(S128x3, U128, 3);
    arr!(P8x13, u8, 13);
    arr!(P16x4, u16, 4);
    arr!(P32x8, u32, 8);
    arr!(P64x25, u64, 25);
    arr!(P128x2, u128, 2);
    arr!(I32x6, i32, 6);
    arr!(Gen11<u64>, u64, 11);
    arr!(Gen11<U8>, U8, 11);
    arr!(BothS, U8, 19);
    arr!(BothP, u8, 19);
    arr!(BothSw, U32, 6);
    sq!(Seq<U8>, U8);
    sq!(Seq<u8>, u8);
    sq!(Seq<U16>, U16);
    sq!(Seq<U64>, U64);
    sq!(Seq<u128>, u128);
    sq!(Seq<i128>, i128);
    sq!(SecretSeq<U8>, U8);
    sq!(SecretSeq<U32>, U32);
    sq!(SecretSeq<I64>, I64);
    sq!(PublicSeq<u8>, u8);
    sq!(PublicSeq<u32>, u32);
    sq!(PublicSeq<i16>, i16);

    large!(c, "large-Seq<u8>", Seq<u8>, u8, None, seq);
    large!(c, "large-Seq<U8>", Seq<U8>, U8, None, seq);
    large!(c, "large-PublicSeq<u16>", PublicSeq<u16>, u16, None, seq);
    large!(c, "large-SecretSeq<U32>", SecretSeq<U32>, U32, None, seq);
    large!(c, "large-array-secret", LargeS, U8, Some(66_001), array);
    large!(c, "large-array-public", LargeP, u16, Some(65_600), array);
    large!(c, "middle-Seq<u8>", Seq<u8>, u8, None, seq, middle, 1_500, 30_000);
    large!(c, "middle-Seq<U8>", Seq<U8>, U8, None, seq, middle, 1_500, 30_000);
    large!(c, "middle-Seq<U64>", Seq<U64>, U64, None, seq, middle, 1_000, 30_000);
    large!(c, "middle-PublicSeq<u128>", PublicSeq<u128>, u128, None, seq, middle, 1_000, 30_000);
    large!(c, "middle-SecretSeq<U16>", SecretSeq<U16>, U16, None, seq, middle, 1_000, 30_000);
    large!(c, "middle-array-B300", B300, U8, Some(300), array, middle, 1_500, 30_000);
    large!(c, "middle-array-P8x1000", P8x1000, u8, Some(1000), array, middle, 1_500, 30_000);
    large!(c, "middle-array-S64x270", S64x270, U64, Some(270), array, middle, 1_500, 30_000);
    large!(c, "middle-array-P32x300", P32x300, u32, Some(300), array, middle, 1_500, 30_000);
    large!(c, "middle-array-Gen150", Gen150<u16>, u16, Some(150), array, middle, 1_500, 30_000);

    // conversions between public and secret containers of the same shape
    c.run("public-secret-conversion", 40_000, 800_000, || (bytes_n(19), words(32, 6..=6), bytes_of(0..64usize)), |(b, w, s): &(B, Vec<W>, B), r: &mut Rec| {
        r.nontrivial(b.0.iter().any(|x| *x != b.0[0]));
        let pa = BothP::from_vec(b.0.clone());
        let sa = BothS::from_public(pa);
        eq("from_public", wd::<U8>(sa.iter()), b.0.iter().map(|x| W(*x as u128)).collect())?;
        eq("from_secret_declassify", BothP::from_secret_declassify(sa).0.to_vec(), b.0.clone())?;
        eq("from_public_slice", wd::<U8>(BothS::from_public_slice(&b.0).iter()), wd::<U8>(sa.iter()))?;
        let mut arr = [0u8; 19];
        arr.copy_from_slice(&b.0);
        eq("from_public_array", wd::<U8>(BothS::from_public_array(arr).iter()), wd::<U8>(sa.iter()))?;
        eq("from_array", BothP::from_array(arr).0.to_vec(), b.0.clone())?;
        let pw = BothPw::from_vec(ws::<u32>(w));
        eq("from_public words", wd::<U32>(BothSw::from_public(pw).iter()), w.clone())?;
        eq("declassified words", wd::<u32>(BothPw::from_secret_declassify(BothSw::from_public(pw)).iter()), w.clone())?;
        eq("sequence from_public_slice", wd::<U8>(Seq::<U8>::from_public_slice(&s.0).iter()), s.0.iter().map(|x| W(*x as u128)).collect())?;
        if s.0.len() != 19 {
            must_panic("from_public_slice of another length", || BothS::from_public_slice(&s.0).len())?;
        }
        let g = Gen11::from_array({ let mut x = [0u8; 11]; x.copy_from_slice(&b.0[..11]); x });
        eq("generic from_array", g.0.to_vec(), b.0[..11].to_vec())?;
        // the debug forms list the elements in order, also of secret arrays
        let list = format!("{:?}", b.0);
        eq("debug forms", (format!("{:?}", pa), format!("{:?}", sa), format!("{:?}", g)), (list.clone(), list, format!("{:?}", &b.0[..11])))?;
        eq("capacity", (B7::capacity(), S64x16::capacity(), P128x2::capacity(), Gen11::<u8>::capacity()), (7, 16, 2, 11))
    });
    c.run("literal-lists", 20_000, 200_000, || words(32, 5..=5), |v: &Vec<W>, r: &mut Rec| {
        r.nontrivial(v.iter().any(|x| *x != v[0]));
        let b: Vec<u8> = v.iter().map(|x| x.0 as u8).collect();
        let s: [U8; 5] = secret_bytes!([b[0], b[1], b[2], b[3], b[4]]);
        eq("secret_bytes", wd::<U8>(s.iter()), b.iter().map(|x| W(*x as u128)).collect())?;
        let w: Vec<u32> = v.iter().map(|x| x.0 as u32).collect();
        let s: [U32; 5] = secret_array!(U32, [w[0], w[1], w[2], w[3], w[4]]);
        eq("secret_array", wd::<U32>(s.iter()), v.clone())
    });
    c.run("random-shape", 2_000, 20_000, || 0..200usize, |n: &usize, r: &mut Rec| {
        r.nontrivial(*n > 0);
        eq("random sequence length", Seq::<U8>::random(*n).len(), *n)?;
        eq("random words length", (S32x9::get_random_vec(*n).len(), P64x25::get_random_vec(*n).len()), (*n, *n))?;
        let (a, b) = (B33::random(), B33::random());
        eq("random array length", a.len(), 33)?;
        ensure(!a.declassify_eq(&b), || "two random 33-byte arrays are equal".to_string())
    });
    // every bit of every position takes both values over 400 draws (a fair source fails with probability below 2^-380)
    c.exhaust("random-bits", 0..3u8, |k: &u8, r: &mut Rec| {
        r.nontrivial(true);
        let draw = || -> Vec<u128> { match k {
            0 => B33::random().iter().map(|x| x.w()).collect(),
            1 => Seq::<U8>::random(33).iter().map(|x| x.w()).collect(),
            _ => S64x16::random().iter().map(|x| x.w()).collect(),
        } };
        let full = if *k == 2 { mask(64) } else { 0xff };
        let (mut ones, mut zeros) = (vec![0u128; draw().len()], vec![0u128; draw().len()]);
        for _ in 0..400 {
            for (i, x) in draw().into_iter().enumerate() { ones[i] |= x; zeros[i] |= !x & full; }
        }
        ensure(ones.iter().chain(&zeros).all(|x| *x == full), || "some bit of a random container never changes".to_string())
    });
}

// ---------------------------------------------------------------- C13: chunks
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chunks {
    data: Vec<W>,
    size: usize,
    order: Vec<usize>,
}
fn chunk_case(bits: u32, fixed: Option<usize>) -> impl Strategy<Value = Chunks> {
    let n = match fixed {
        Some(l) => Just(l).boxed(),
        None => prop_oneof![1 => Just(0usize), 6 => 1..50usize, 1 => 50..300usize].boxed(),
    };
    n.prop_flat_map(move |n| (words(bits, n..=n), prop_oneof![6 => 1..n + 3, 1 => Just(1usize), 1 => Just(n.max(1)), 1 => 1..10usize, 1 => Just(n + 100)], prop::collection::vec(any::<u16>(), 0..12)))
        .prop_map(|(data, size, o)| Chunks { data, size, order: o.into_iter().map(|x| x as usize).collect() })
}
macro_rules! chunks {
    ($c:expr, $name:expr, $Ty:ty, $E:ty, $fixed:expr, $kind:ident) => {{
        let check = |k: &Chunks, r: &mut Rec| -> Res {
            let n = k.data.len();
            let want: Vec<Vec<W>> = k.data.chunks(k.size).map(|c| c.to_vec()).collect();
            r.nontrivial(want.len() >= 2);
            r.class_if(n % k.size != 0, "short-last-chunk");
            r.class_if(n > 0 && n % k.size == 0, "exact-multiple");
            r.class_if(n == 0, "empty");
            let c: $Ty = <$Ty>::from_vec(ws::<$E>(&k.data));
            eq("num_chunks", no_panic("num_chunks", || c.num_chunks(k.size))?, want.len())?;
            let mut joined = vec![];
            let mut rebuilt = <$Ty as SeqTrait<$E>>::create(n);
            for i in 0..want.len() {
                let (l, ch) = no_panic("get_chunk", || c.get_chunk(k.size, i))?;
                eq("chunk length", (l, SeqTrait::len(&ch)), (want[i].len(), want[i].len()))?;
                eq("chunk contents", wd::<$E>(SeqTrait::iter(&ch)), want[i].clone())?;
                chunks!(@len $kind, c, k, i, want);
                joined.extend(wd::<$E>(SeqTrait::iter(&ch)));
                let rb = rebuilt.clone();
                rebuilt = no_panic("set_chunk", || rb.set_chunk(k.size, i, &ch))?;
            }
            eq("concatenated chunks", joined, k.data.clone())?;
            eq("rebuilt from chunks", wd::<$E>(SeqTrait::iter(&rebuilt)), k.data.clone())?;
            // overwrite chunks in an arbitrary order with complemented contents
            let mut model = k.data.clone();
            let mut cc = c.clone();
            for o in &k.order {
                if want.is_empty() { break; }
                let i = o % want.len();
                let (a, b) = (i * k.size, (i * k.size + k.size).min(n));
                for x in &mut model[a..b] { x.0 = !x.0 & mask(<$E>::BITS); }
                let s: Seq<$E> = Seq::from_vec(ws::<$E>(&model[a..b]));
                let d = cc.clone();
                cc = no_panic("set_chunk", || d.set_chunk(k.size, i, &s))?;
                eq("after set_chunk", wd::<$E>(SeqTrait::iter(&cc)), model.clone())?;
            }
            // a chunk of another length is refused, whether shorter or longer
            for (i, o) in (0..want.len()).zip(k.order.iter().chain(std::iter::repeat(&0))).take(4) {
                let i = if i == 0 { want.len() - 1 } else { o % want.len() };
                let l = want[i].len();
                for bad in [l + 1 + o % 3, l - 1, l / 2, 0, k.size, k.size + 1, n, n + 1] {
                    if bad == l { continue; }
                    let s: Seq<$E> = Seq::new(bad);
                    let d = c.clone();
                    must_panic(&format!("set_chunk of {} elements at chunk {} of length {}", bad, i, l), || wd::<$E>(SeqTrait::iter(&d.set_chunk(k.size, i, &s))))?;
                }
            }
            Ok(())
        };
        let fixed: Option<usize> = $fixed;
        $c.run($name, 8_000, 160_000, move || chunk_case(<$E>::BITS, fixed), check);
    }};
    (@len array, $c:ident, $k:ident, $i:ident, $want:ident) => {
        eq("get_chunk_len", no_panic("get_chunk_len", || $c.get_chunk_len($k.size, $i))?, $want[$i].len())?;
    };
    (@len seq, $c:ident, $k:ident, $i:ident, $want:ident) => {};
}
fn c13(c: &mut Ctx) {
    c.rule("a container, a chunk size >= 1 and an order in which to overwrite chunks; chunk sizes around the length and its divisors; non-trivial: at least two chunks");
    macro_rules! arr { ($T:ty, $E:ty, $l:expr) => { chunks!(c, concat!("array-", stringify!($T)), $T, $E, Some($l), array); } }
    macro_rules! sq { ($T:ty, $E:ty) => { chunks!(c, &stringify!($T).replace(' ', ""), $T, $E, None, seq); } }
    arr!(B1, U8, 1);
    arr!(B7, U8, 7);
    arr!(B33, U8, 33);
    arr!(S32x9, U32, 9);
    arr!(S64x16, U64, 16);
    arr!(P8x13, u8, 13);
    arr!(P64x25, u64, 25);
    arr!(I32x6, i32, 6);
    arr!(Gen11<u32>, u32, 11);
    sq!(Seq<U8>, U8);
    sq!(Seq<u8>, u8);
    sq!(Seq<U64>, U64);
    sq!(SecretSeq<U32>, U32);
    sq!(PublicSeq<u8>, u8);
    sq!(PublicSeq<i64>, i64);
    // chunks whose positions need more than sixteen bits, read and overwritten
    macro_rules! far {
        ($name:expr, $Ty:ty, $E:ty, $fixed:expr) => {
            c.run($name, 25, 400, || (match $fixed { Some(n) => Just(n).boxed(), None => prop_oneof![65_530..65_545usize, 65_600..200_000usize, 131_070..131_080usize].boxed() },
                prop_oneof![1..300usize, 1_000..40_000usize, 65_530..65_545usize, (8..17usize).prop_map(|k| 1 << k)], prop::collection::vec((any::<u32>(), any::<u8>()), 2..8)), |(n, size, ks): &(usize, usize, Vec<(u32, u8)>), r: &mut Rec| {
                let (n, size): (usize, usize) = (*n, *size);
                let mut m: Vec<u8> = (0..n).map(|i| (i ^ i >> 7 ^ i >> 15) as u8).collect();
                let mut c = Box::new(<$Ty>::from_vec(m.iter().map(|b| <$E>::of(*b as u128)).collect()));
                let chunks = (n + size - 1) / size;
                eq("number of chunks", no_panic("num_chunks", || c.num_chunks(size))?, chunks)?;
                let mut far = 0;
                for (k, v) in ks {
                    // the last chunks more often than the others
                    let k = if k & 3 == 0 { chunks - 1 - (*k as usize >> 2) % chunks.min(3) } else { (*k as usize >> 2) % chunks };
                    let (at, end) = (k * size, n.min((k + 1) * size));
                    far += (at > 65_535) as usize;
                    let (l, g) = no_panic("get_chunk", || c.get_chunk(size, k))?;
                    ensure(l == end - at && g.iter().map(|x| x.w() as u8).eq(m[at..end].iter().cloned()), || format!("chunk {} of size {} of {}", k, size, n))?;
                    for b in &mut m[at..end] { *b = b.wrapping_add(v | 1); }
                    let s: Seq<$E> = Seq::from_vec(m[at..end].iter().map(|b| <$E>::of(*b as u128)).collect());
                    c = no_panic("set_chunk", || Box::new(c.set_chunk(size, k, &s)))?;
                    if let Some(i) = SeqTrait::iter(&*c).zip(&m).position(|(x, y)| x.w() != *y as u128) {
                        return Err(format!("element {} after chunk {} of size {} of {} was overwritten", i, k, size, n));
                    }
                }
                r.nontrivial(far > 0);
                Ok(())
            });
        };
    }
    far!("far-Seq<u8>", Seq<u8>, u8, None);
    far!("far-Seq<U8>", Seq<U8>, U8, None);
    far!("far-PublicSeq<u32>", PublicSeq<u32>, u32, None);
    far!("far-SecretSeq<U16>", SecretSeq<U16>, U16, None);
    far!("far-array-U8", LargeS, U8, Some(66_001));
    far!("far-array-u16", LargeP, u16, Some(65_600));
    // long containers: the arithmetic on lengths is exact
    c.run("long", 60, 600, || (prop_oneof![(1usize << 24)..(1 << 24) + 5, 1_000_000..20_000_000usize, Just(3 << 23)],
        prop_oneof![1..9usize, (1usize << 22)..(1 << 24), Just(1 << 24), (1usize << 24)..(1 << 24) + 8], any::<u8>()), |(n, size, v): &(usize, usize, u8), r: &mut Rec| {
        let (n, size) = (*n, *size);
        r.nontrivial(n > size);
        let m = (n + size - 1) / size;
        let mut s = Seq::<u8>::new(n);
        let mut p = PublicSeq::<u8>::new(n);
        for i in [0, n / 2, n - 1, (m - 1) * size] { s[i] = *v; p[i] = *v; }
        eq("number of chunks", (s.num_chunks(size), p.num_chunks(size)), (m, m))?;
        let at = (m - 1) * size;
        let ((l, a), (k, b)) = (s.get_chunk(size, m - 1), p.get_chunk(size, m - 1));
        eq("length of the last chunk", (l, a.len(), k, b.len()), (n - at, n - at, n - at, n - at))?;
        eq("ends of the last chunk", (a[0], a[n - at - 1], b[0], b[n - at - 1]), (*v, *v, *v, *v))
    });
}

// ---------------------------------------------------------------- C14: elementwise operators
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: Vec<W>,
    b: Vec<W>,
    n: W,
}
fn two(bits: u32, len: Option<usize>) -> impl Strategy<Value = Two> {
    let n = match len {
        Some(l) => Just(l).boxed(),
        None => prop_oneof![1 => Just(0usize), 8 => 1..40usize].boxed(),
    };
    n.prop_flat_map(move |n| (prop::collection::vec(word2(bits), n..=n), word(bits), alike(n)))
        .prop_map(move |(v, n, same)| {
            let a: Vec<W> = v.iter().map(|p| p.0).collect();
            let b: Vec<W> = v.iter().map(|p| p.1).collect();
            relate(a, b, n, same, bits)
        })
}
/// How the second operand resembles the first.
type Alike = Option<(u8, usize, usize, u32)>;
fn alike(n: usize) -> impl Strategy<Value = Alike> {
    prop_oneof![6 => Just(None), 2 => (0..4u8, 0..n + 1, 0..n + 1, 0..128u32).prop_map(Some)]
}
fn relate(a: Vec<W>, mut b: Vec<W>, n: W, same: Alike, bits: u32) -> Two {
    let len = a.len();
    match same {
        None => {}
        // an equal prefix, so that ordering is decided late
        Some((0, k, _, _)) => b[..k].copy_from_slice(&a[..k]),
        // an equal suffix
        Some((1, k, _, _)) => b[k..].copy_from_slice(&a[k..]),
        // a single bit differs
        Some((2, k, _, bit)) => {
            b = a.clone();
            if k < len { b[k].0 ^= 1 << (bit % bits); }
        }
        // two elements differ by the same pattern
        Some((_, k, j, bit)) => {
            let d = if k < len { b[k].0 } else { 1 << (bit % bits) };
            b = a.clone();
            if k < len { b[k].0 ^= d; }
            if j < len { b[j].0 ^= d; }
        }
    }
    Two { a, b, n }
}
/// Operands of hundreds of elements (of tens of thousands for a sequence now and then).
fn many(bits: u32, len: Option<usize>) -> impl Strategy<Value = Two> {
    let n = match len {
        Some(l) => Just(l).boxed(),
        None => prop_oneof![4 => 40..130usize, 4 => 250..260usize, 3 => 260..1030usize, 1 => 65_530..65_545usize].boxed(),
    };
    n.prop_flat_map(move |n| (prop::collection::vec(word2(bits), 1..12), any::<u64>(), Just(n), word(bits), alike(n)))
        .prop_map(move |(few, mut z, len, n, same)| {
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..len {
                let mut next = || { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (z >> 32) as u128 };
                let x = next();
                if x % 4 == 0 {
                    let p = few[(x >> 8) as usize % few.len()];
                    a.push(p.0); b.push(p.1);
                } else {
                    let mut w = || W((next() | next() << 32 | next() << 64 | next() << 96) & mask(bits));
                    a.push(w()); b.push(w());
                }
            }
            relate(a, b, n, same, bits)
        })
}
fn zipw(a: &[W], b: &[W], f: impl Fn(u128, u128) -> u128) -> Vec<W> {
    a.iter().zip(b).map(|(x, y)| W(f(x.0, y.0))).collect()
}
macro_rules! ops_common {
    ($x:ident, $y:ident, $c:ident, $E:ty, $t:ty) => {{
        let m = mask(<$E>::BITS);
        let g = |v: Vec<W>| v;
        eq("a+b", wd::<$E>(SeqTrait::iter(&no_panic("+", || $x.clone() + $y.clone())?)), g(zipw(&$c.a, &$c.b, |p, q| p.wrapping_add(q) & m)))?;
        eq("a-b", wd::<$E>(SeqTrait::iter(&no_panic("-", || $x.clone() - $y.clone())?)), g(zipw(&$c.a, &$c.b, |p, q| p.wrapping_sub(q) & m)))?;
        eq("a*b", wd::<$E>(SeqTrait::iter(&no_panic("*", || $x.clone() * $y.clone())?)), g(zipw(&$c.a, &$c.b, |p, q| p.wrapping_mul(q) & m)))?;
        eq("a^b", wd::<$E>(SeqTrait::iter(&no_panic("^", || $x.clone() ^ $y.clone())?)), g(zipw(&$c.a, &$c.b, |p, q| p ^ q)))?;
        eq("wrap_add", wd::<$E>(SeqTrait::iter(&no_panic("wrap_add", || NumericBase::wrap_add($x.clone(), $y.clone()))?)), zipw(&$c.a, &$c.b, |p, q| p.wrapping_add(q) & m))?;
        eq("wrap_sub", wd::<$E>(SeqTrait::iter(&no_panic("wrap_sub", || NumericBase::wrap_sub($x.clone(), $y.clone()))?)), zipw(&$c.a, &$c.b, |p, q| p.wrapping_sub(q) & m))?;
        eq("wrap_mul", wd::<$E>(SeqTrait::iter(&no_panic("wrap_mul", || NumericBase::wrap_mul($x.clone(), $y.clone()))?)), zipw(&$c.a, &$c.b, |p, q| p.wrapping_mul(q) & m))?;
    }};
}
/// vec_poly_*: pointwise, wrapping for n = 0 and modulo n otherwise.
macro_rules! vecpoly {
    ($C:ty, $E:ty, $t:ty, $signed:expr, $c:ident) => {{
        let m = mask(<$E>::BITS);
        let mk = |v: &[W]| <$C>::from_vec(ws::<$E>(v));
        let z = <$E>::of(0);
        eq("vec_poly_add n=0", wd::<$E>(SeqTrait::iter(&no_panic("vec_poly_add", || vec_poly_add(mk(&$c.a), mk(&$c.b), z))?)), zipw(&$c.a, &$c.b, |p, q| p.wrapping_add(q) & m))?;
        eq("vec_poly_sub n=0", wd::<$E>(SeqTrait::iter(&no_panic("vec_poly_sub", || vec_poly_sub(mk(&$c.a), mk(&$c.b), z))?)), zipw(&$c.a, &$c.b, |p, q| p.wrapping_sub(q) & m))?;
        eq("vec_poly_mul n=0", wd::<$E>(SeqTrait::iter(&no_panic("vec_poly_mul", || vec_poly_mul(mk(&$c.a), mk(&$c.b), z))?)), zipw(&$c.a, &$c.b, |p, q| p.wrapping_mul(q) & m))?;
        // operands halved so that every intermediate fits
        let h = <$E>::BITS / 2 - 1;
        let n = ($c.n.0 & mask(h)).max(1);
        let (a, b): (Vec<W>, Vec<W>) = ($c.a.iter().map(|x| W(x.0 & mask(h))).collect(), $c.b.iter().map(|x| W(x.0 & mask(h))).collect());
        let nn = <$E>::of(n);
        eq("vec_poly_add n", wd::<$E>(SeqTrait::iter(&no_panic("vec_poly_add", || vec_poly_add(mk(&a), mk(&b), nn))?)), zipw(&a, &b, |p, q| (p + q) % n))?;
        eq("vec_poly_sub n", wd::<$E>(SeqTrait::iter(&no_panic("vec_poly_sub", || vec_poly_sub(mk(&a), mk(&b), nn))?)), zipw(&a, &b, |p, q| (p % n + n - q % n) % n))?;
        eq("vec_poly_mul n", wd::<$E>(SeqTrait::iter(&no_panic("vec_poly_mul", || vec_poly_mul(mk(&a), mk(&b), nn))?)), zipw(&a, &b, |p, q| p * q % n))?;
    }};
}
fn c14(c: &mut Ctx) {
    c.rule("two containers of the same shape with boundary-biased related words, optionally an equal prefix; non-trivial: some element wraps in the sum or the difference");
    fn nt(c: &Two, bits: u32, r: &mut Rec) {
        let m = mask(bits);
        let wraps = c.a.iter().zip(&c.b).any(|(x, y)| x.0.checked_add(y.0).map_or(true, |s| s > m) || x.0 < y.0);
        r.nontrivial(wraps);
        r.class_if(c.a == c.b, "equal");
        r.class_if(c.a.first() == c.b.first() && c.a != c.b, "equal-prefix");
    }
    macro_rules! sec { ($T:ident, $E:ident, $t:ident, $l:expr) => {
        let (q, t) = if $l < 100 { (6_000, 120_000) } else { (120, 3_000) };
        c.run(concat!("secret-array-", stringify!($T)), q, t, || if $l < 100 { two(<$E>::BITS, Some($l)).boxed() } else { many(<$E>::BITS, Some($l)).boxed() }, |c: &Two, r: &mut Rec| -> Res {
            nt(c, <$E>::BITS, r);
            let (x, y) = ($T::from_vec(ws::<$E>(&c.a)), $T::from_vec(ws::<$E>(&c.b)));
            ops_common!(x, y, c, $E, $t);
            vecpoly!($T, $E, $t, false, c);
            eq("declassify_eq", x.declassify_eq(&y), c.a == c.b)?;
            eq("assert_secret_array_eq", caught(|| assert_secret_array_eq!(x, y, $E)).is_ok(), c.a == c.b)?;
            eq("declassify_eq self", x.declassify_eq(&x.clone()), true)
        });
    } }
    sec!(B1, U8, u8, 1);
    sec!(B33, U8, u8, 33);
    sec!(S16x5, U16, u16, 5);
    sec!(S32x9, U32, u32, 9);
    sec!(S64x16, U64, u64, 16);
    sec!(S128x3, U128, u128, 3);
    sec!(B300, U8, u8, 300);
    sec!(S64x270, U64, u64, 270);
    macro_rules! publ { ($T:ident, $t:ident, $l:expr) => {
        let (q, t) = if $l < 100 { (6_000, 120_000) } else { (120, 3_000) };
        c.run(concat!("public-array-", stringify!($T)), q, t, || if $l < 100 { two(<$t>::BITS, Some($l)).boxed() } else { many(<$t>::BITS, Some($l)).boxed() }, |c: &Two, r: &mut Rec| -> Res {
            nt(c, <$t>::BITS, r);
            let (x, y) = ($T::from_vec(ws::<$t>(&c.a)), $T::from_vec(ws::<$t>(&c.b)));
            ops_common!(x, y, c, $t, $t);
            vecpoly!($T, $t, $t, false, c);
            eq("==", x == y, c.a == c.b)?;
            eq("cmp", x.cmp(&y), c.a.cmp(&c.b))?;
            eq("partial_cmp", x.partial_cmp(&y), Some(c.a.cmp(&c.b)))?;
            let q = if c.b.iter().all(|v| v.0 != 0) { Some(zipw(&c.a, &c.b, |p, q| p / q)) } else { None };
            r.class_if(q.is_some(), "divisible");
            exact_or_panic("a/b", q, || wd::<$t>((x / y).iter()))
        });
    } }
    publ!(P8x13, u8, 13);
    publ!(P16x4, u16, 4);
    publ!(P32x8, u32, 8);
    publ!(P64x25, u64, 25);
    publ!(P128x2, u128, 2);
    publ!(P32x300, u32, 300);
    publ!(P8x1000, u8, 1000);
    macro_rules! ps { ($t:ident) => { ps!($t, "public-seq-", 6_000, 120_000, two); ps!($t, "public-seq-many-", 60, 1_500, many); }; ($t:ident, $name:expr, $q:expr, $th:expr, $gen:ident) => {
        c.run(concat!($name, stringify!($t)), $q, $th, || $gen(<$t>::BITS, None), |c: &Two, r: &mut Rec| -> Res {
            nt(c, <$t>::BITS, r);
            let (x, y) = (PublicSeq::<$t>::from_vec(ws::<$t>(&c.a)), PublicSeq::<$t>::from_vec(ws::<$t>(&c.b)));
            ops_common!(x, y, c, $t, $t);
            vecpoly!(PublicSeq<$t>, $t, $t, false, c);
            // operands of different length are rejected
            let longer = PublicSeq::<$t>::new(c.a.len() + 1);
            must_panic("+ with another length", || (x.clone() + longer.clone()).len())?;
            must_panic("- with another length", || (x.clone() - longer.clone()).len())?;
            must_panic("* with another length", || (x.clone() * longer.clone()).len())?;
            must_panic("^ with another length", || (x.clone() ^ longer.clone()).len())
        });
    } }
    ps!(u8);
    ps!(u16);
    ps!(u32);
    ps!(u64);
    ps!(u128);
    ps!(i8);
    ps!(i16);
    ps!(i32);
    ps!(i64);
    ps!(i128);
    macro_rules! vp { ($E:ident, $t:ident) => { vp!($E, $t, "seq-", 4_000, 80_000, two); vp!($E, $t, "seq-many-", 60, 1_500, many); }; ($E:ident, $t:ident, $name:expr, $q:expr, $th:expr, $gen:ident) => {
        c.run(concat!($name, stringify!($E)), $q, $th, || $gen(<$t>::BITS, None), |c: &Two, r: &mut Rec| -> Res {
            nt(c, <$t>::BITS, r);
            vecpoly!(Seq<$E>, $E, $t, false, c);
            Ok(())
        });
    } }
    vp!(U8, u8);
    vp!(U32, u32);
    vp!(U64, u64);
    vp!(I32, i32);
    let equality = |(t, k): &(Two, u8), r: &mut Rec| {
        let (a, mut b) = (t.a.clone(), t.b.clone());
        match k { 0 => b = a.clone(), 1 if !b.is_empty() => { b.pop(); } _ => {} }
        r.nontrivial(a.len() == b.len() && !a.is_empty());
        r.class_if(a == b, "equal");
        r.class_if(a.len() != b.len(), "different-length");
        let (x, y) = (Seq::<U8>::from_vec(ws(&a)), Seq::<U8>::from_vec(ws(&b)));
        eq("==", (x == y, y == x), (a == b, a == b))?;
        eq("!=", x != y, a != b)?;
        eq("assert_bytes_eq", caught(|| assert_bytes_eq!(x, y)).is_ok(), a == b)
    };
    c.run("secret-byte-seq-equality", 40_000, 800_000, || (two(8, None), 0..4u8), equality);
    c.run("secret-byte-seq-equality-many", 400, 8_000, || (many(8, None), 0..4u8), equality);
}

// ---------------------------------------------------------------- C15: hex and words
bytes!(B16, 16);
bytes!(B48, 48);
bytes!(B288, 288);
public_bytes!(P288, 288);
bytes!(B64, 64);
public_bytes!(P16, 16);
public_bytes!(P1, 1);
public_bytes!(P7, 7);
bytes!(B19, 19);
public_bytes!(P19, 19);
bytes!(B20, 20);
public_bytes!(P20, 20);
bytes!(B24, 24);
public_bytes!(P24, 24);
bytes!(B34, 34);
public_bytes!(P34, 34);
public_bytes!(P48, 48);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HexCase {
    bytes: B,
    /// bit i: digit i is written in upper case
    upper: Vec<bool>,
}
fn spell(h: &HexCase) -> String {
    hex(&h.bytes).chars().enumerate().map(|(i, c)| if h.upper.get(i).copied().unwrap_or(false) { c.to_ascii_uppercase() } else { c }).collect()
}
fn hexcase(len: impl Strategy<Value = usize> + 'static) -> impl Strategy<Value = HexCase> {
    (bytes_of(len), prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(any::<bool>(), 0..140)]).prop_map(|(bytes, upper)| HexCase { bytes, upper })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadHex {
    s: String,
}
fn c15(c: &mut Ctx) {
    c.rule("byte strings in mixed-case spelling; strings that are not hex (odd length, foreign characters, signs, wrong array length); word vectors for the byte/word views; non-trivial: a letter digit occurs, or the string is malformed, or words are asymmetric");
    macro_rules! exacthex { ($name:expr, $T:ident, $l:expr, $get:expr) => {
        let (q, t) = if $l < 100 { (10_000, 200_000) } else { (300, 6_000) };
        c.run($name, q, t, || hexcase(Just($l)), |h: &HexCase, r: &mut Rec| {
            let s = spell(h);
            r.nontrivial(s.bytes().any(|b| b.is_ascii_alphabetic()));
            r.class_if(s.bytes().any(|b| b.is_ascii_uppercase()), "upper-case");
            let x = no_panic("from_hex", || $T::from_hex(&s))?;
            let get: fn(&$T) -> Vec<u8> = $get;
            eq("from_hex", B(get(&x)), h.bytes.clone())?;
            eq("to_hex", x.to_hex(), hex(&h.bytes))?;
            eq("round trip", B(get(&$T::from_hex(&x.to_hex()))), h.bytes.clone())
        });
    } }
    exacthex!("array-hex-1", B1, 1, |x| x.iter().map(|b| b.declassify()).collect());
    exacthex!("array-hex-7", B7, 7, |x| x.iter().map(|b| b.declassify()).collect());
    exacthex!("array-hex-64", B64, 64, |x| x.iter().map(|b| b.declassify()).collect());
    exacthex!("array-hex-300", B300, 300, |x| x.iter().map(|b| b.declassify()).collect());
    exacthex!("public-array-hex-1000", P8x1000, 1000, |x| x.0.to_vec());
    exacthex!("public-array-hex-13", P8x13, 13, |x| x.0.to_vec());
    exacthex!("public-array-hex-48", P48, 48, |x| x.0.to_vec());
    let seqhex = |h: &HexCase, r: &mut Rec| {
        let s = spell(h);
        r.nontrivial(s.bytes().any(|b| b.is_ascii_alphabetic()));
        r.class_if(s.bytes().any(|b| b.is_ascii_uppercase()), "upper-case");
        r.class_if(s.is_empty(), "empty");
        let x = no_panic("from_hex", || Seq::<U8>::from_hex(&s))?;
        let sec = |x: &Seq<U8>| B(x.iter().map(|b| b.declassify()).collect());
        eq("from_hex", sec(&x), h.bytes.clone())?;
        eq("from_string", sec(&no_panic("from_string", || Seq::<U8>::from_string(s.clone()))?), h.bytes.clone())?;
        eq("to_hex", x.to_hex(), hex(&h.bytes))?;
        let p = no_panic("from_hex", || PublicSeq::<u8>::from_hex(&s))?;
        eq("public from_hex", B(p.iter().copied().collect()), h.bytes.clone())?;
        eq("public from_string", B(no_panic("from_string", || PublicSeq::<u8>::from_string(s.clone()))?.iter().copied().collect()), h.bytes.clone())?;
        eq("public to_hex", p.to_hex(), hex(&h.bytes))?;
        eq("hex_string_to_bytes", B(no_panic("hex_string_to_bytes", || hex_string_to_bytes(&s))?), h.bytes.clone())
    };
    c.run("seq-hex", 40_000, 800_000, || hexcase(0..70usize), seqhex);
    c.run("seq-hex-many", 300, 6_000, || hexcase(prop_oneof![8 => 70..270usize, 4 => 270..1100usize, 1 => 32_760..32_775usize, 1 => 65_530..65_545usize]), seqhex);
    // anything that is not an even number of hex digits is rejected, never misread
    let bad = || {
        let digit = prop_oneof![8 => prop::sample::select("0123456789abcdefABCDEF".chars().collect::<Vec<_>>()), 0 => any::<char>()];
        (prop::collection::vec(digit, 0..40), prop_oneof![3 => prop::sample::select(" +-_xXgG/:@`{~\t\n\0.,é0x".chars().collect::<Vec<_>>()), 1 => any::<char>()], any::<prop::sample::Index>(), 0..6u8).prop_map(|(mut v, ch, at, k)| {
            match k {
                0 => { if v.len() % 2 == 0 { v.push('a'); } }
                1 => { let i = at.index(v.len() + 1); v.insert(i, ch); if v.len() % 2 == 1 { v.push('0'); } }
                2 => { let i = at.index(v.len() + 1); v.insert(i, ch); v.insert(i, ch); }
                3 => { v.insert(0, 'x'); v.insert(0, '0'); }
                4 => { let i = at.index(v.len() + 1) / 2 * 2; v.insert(i.min(v.len()), '5'); v.insert(i.min(v.len()), '+'); }
                _ => { let n = v.len(); if n > 0 { let i = at.index(n); v[i] = ch; } }
            }
            BadHex { s: v.into_iter().collect() }
        })
    };
    let is_hex = |s: &str| s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit());
    let malformed = move |b: &BadHex, r: &mut Rec| -> Res {
        if is_hex(&b.s) {
            r.class("well-formed");
            return eq("from_hex", B(Seq::<U8>::from_hex(&b.s).iter().map(|x| x.declassify()).collect()), B(unhex(&b.s)));
        }
        r.nontrivial(true);
        r.class_if(b.s.len() % 2 == 1, "odd-length");
        r.class_if(b.s.contains('+') || b.s.contains('-'), "sign");
        r.class_if(!b.s.is_ascii(), "non-ascii");
        must_panic("Seq<U8>::from_hex", || Seq::<U8>::from_hex(&b.s).to_hex())?;
        must_panic("Seq<U8>::from_string", || Seq::<U8>::from_string(b.s.clone()).to_hex())?;
        must_panic("PublicSeq<u8>::from_hex", || PublicSeq::<u8>::from_hex(&b.s).to_hex())?;
        must_panic("PublicSeq<u8>::from_string", || PublicSeq::<u8>::from_string(b.s.clone()).to_hex())?;
        must_panic("hex_string_to_bytes", || hex_string_to_bytes(&b.s))?;
        // for arrays: cut or repeat to the right number of characters so that only the digits are wrong
        let mut cs: Vec<char> = b.s.chars().collect();
        while cs.len() > 14 && cs.len() % 2 == 0 && cs[..14].iter().all(|c| c.is_ascii_hexdigit()) { cs.remove(0); cs.remove(0); }
        let t: String = cs.iter().cycle().take(14).collect();
        if !is_hex(&t) {
            must_panic("array from_hex", || B7::from_hex(&t).to_hex())?;
        }
        must_panic("array from_hex", || B7::from_hex(&b.s).to_hex())?;
        must_panic("public array from_hex", || P8x13::from_hex(&b.s).to_hex())
    };
    c.run("malformed-hex", 40_000, 800_000, bad, malformed);
    // the same behind a long well-formed part
    c.run("malformed-hex-many", 300, 6_000, || (bad(), prop_oneof![4 => 50..140usize, 2 => 140..600usize, 1 => 32_700..32_780usize], any::<bool>()).prop_map(|(b, n, front)| {
        let long = "5aC0".repeat(n / 2) + if n % 2 == 1 { "e1" } else { "" };
        BadHex { s: if front { long + &b.s } else { b.s + &long } }
    }), malformed);
    c.run("array-hex-wrong-length", 10_000, 200_000, || hexcase(0..40usize), |h: &HexCase, r: &mut Rec| {
        let s = spell(h);
        let n = h.bytes.len();
        r.nontrivial(n != 7 && n != 13);
        exact_or_panic("array from_hex", if n == 7 { Some(hex(&h.bytes)) } else { None }, || B7::from_hex(&s).to_hex())?;
        exact_or_panic("public array from_hex", if n == 13 { Some(hex(&h.bytes)) } else { None }, || P8x13::from_hex(&s).to_hex())
    });

    // words <-> bytes
    macro_rules! packs { ($name:expr, $S:ident, $P:ident, $l:expr) => {
        c.run($name, if $l < 100 { 10_000 } else { 1_000 }, 200_000, || bytes_n($l), |b: &B, r: &mut Rec| {
            r.nontrivial(b.0[0] != b.0[3]);
            let s = $S::from_public_slice(&b.0);
            let p = $P::from_vec(b.0.clone());
            let be = |k: usize| -> Vec<W> { b.0.chunks(k).map(|c| W(c.iter().fold(0u128, |a, x| a << 8 | *x as u128))).collect() };
            let le = |k: usize| -> Vec<W> { b.0.chunks(k).map(|c| W(c.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128))).collect() };
            eq("to_be_U32s", wd::<U32>(s.to_be_U32s().iter()), be(4))?;
            eq("to_le_U32s", wd::<U32>(s.to_le_U32s().iter()), le(4))?;
            eq("to_be_U64s", wd::<U64>(s.to_be_U64s().iter()), be(8))?;
            eq("to_le_U64s", wd::<U64>(s.to_le_U64s().iter()), le(8))?;
            eq("to_U128s_be", wd::<U128>(s.to_U128s_be().iter()), be(16))?;
            eq("to_U128s_le", wd::<U128>(s.to_U128s_le().iter()), le(16))?;
            eq("to_be_u32s", wd::<u32>(p.to_be_u32s().iter()), be(4))?;
            eq("to_le_u32s", wd::<u32>(p.to_le_u32s().iter()), le(4))?;
            eq("to_be_u64s", wd::<u64>(p.to_be_u64s().iter()), be(8))?;
            eq("to_le_u64s", wd::<u64>(p.to_le_u64s().iter()), le(8))?;
            eq("to_u128s_be", wd::<u128>(p.to_u128s_be().iter()), be(16))?;
            eq("to_u128s_le", wd::<u128>(p.to_u128s_le().iter()), le(16))?;
            eq("to_be_bytes", B(s.to_be_bytes().iter().map(|x| x.declassify()).collect()), b.clone())?;
            eq("to_le_bytes", B(s.to_le_bytes().iter().map(|x| x.declassify()).collect()), b.clone())
        });
    } }
    packs!("pack-16", B16, P16, 16);
    // a byte array that is not a whole number of words has no such view: no byte may get lost
    macro_rules! tails { ($S:ident, $P:ident, $l:expr) => {
        c.run(concat!("pack-uneven-", stringify!($l)), 300, 3_000, || bytes_n($l), |b: &B, r: &mut Rec| {
            r.nontrivial(b.0.iter().any(|x| *x != 0));
            let s = $S::from_public_slice(&b.0);
            let p = $P::from_vec(b.0.clone());
            macro_rules! one { ($o:expr, $k:expr, $m:ident, $t:ident) => { if $l % $k != 0 {
                must_panic(concat!(stringify!($m), " of ", stringify!($l), " bytes"), || wd::<$t>($o.$m().iter()))?;
            } } }
            one!(s, 4, to_be_U32s, U32); one!(s, 4, to_le_U32s, U32);
            one!(s, 8, to_be_U64s, U64); one!(s, 8, to_le_U64s, U64);
            one!(s, 16, to_U128s_be, U128); one!(s, 16, to_U128s_le, U128);
            one!(p, 4, to_be_u32s, u32); one!(p, 4, to_le_u32s, u32);
            one!(p, 8, to_be_u64s, u64); one!(p, 8, to_le_u64s, u64);
            one!(p, 16, to_u128s_be, u128); one!(p, 16, to_u128s_le, u128);
            Ok(())
        });
    } }
    tails!(B1, P1, 1);
    tails!(B7, P7, 7);
    tails!(B19, P19, 19);
    tails!(B20, P20, 20);
    tails!(B24, P24, 24);
    tails!(B34, P34, 34);
    packs!("pack-48", B48, P48, 48);
    packs!("pack-288", B288, P288, 288);
    macro_rules! tobytes { ($T:ident, $E:ident, $l:expr) => {
        c.run(concat!("to-bytes-", stringify!($T)), if $l < 100 { 8_000 } else { 400 }, 160_000, || words(<$E>::BITS, $l..=$l), |v: &Vec<W>, r: &mut Rec| {
            let k = <$E>::BITS as usize / 8;
            let a = $T::from_vec(ws::<$E>(v));
            let le: Vec<u8> = v.iter().flat_map(|w| w.0.to_le_bytes()[..k].to_vec()).collect();
            let be: Vec<u8> = v.iter().flat_map(|w| { let mut x = w.0.to_le_bytes()[..k].to_vec(); x.reverse(); x }).collect();
            r.nontrivial(le != be);
            eq("to_le_bytes", B(no_panic("to_le_bytes", || a.to_le_bytes())?.iter().map(|x| x.declassify()).collect()), B(le))?;
            eq("to_be_bytes", B(no_panic("to_be_bytes", || a.to_be_bytes())?.iter().map(|x| x.declassify()).collect()), B(be))
        });
    } }
    tobytes!(S16x5, U16, 5);
    tobytes!(S32x9, U32, 9);
    tobytes!(S64x16, U64, 16);
    tobytes!(S128x3, U128, 3);
    tobytes!(S64x270, U64, 270);
    tobytes!(BothSw, U32, 6);
}

fn main() {
    main_with(&[("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15)])
}
