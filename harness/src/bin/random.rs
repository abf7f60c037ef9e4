//! C33: random containers are of the requested length and drawn anew, over the whole range.
//! The values cannot be predicted, so each case judges statistics of many draws with bounds that fail a
//! correct generator with probability below 2^-60.
use hacspec::prelude::*;
use hacspec::*;
use std::io::Write;
use std::process::{Command, Stdio};
use vh::*;

/// A way of drawing: element width in bytes, and the drawn container as little-endian bytes of its elements.
struct Src {
    name: &'static str,
    width: usize,
    /// the length is the type's own
    fixed: Option<usize>,
    draw: fn(usize) -> Vec<u8>,
}
macro_rules! arr {
    ($v:ident, sec, $N:ident, $l:literal, $T:ident, $base:ident) => {{
        array!($N, $l, $T);
        $v.push(Src { name: concat!("array of ", stringify!($T)), width: std::mem::size_of::<$base>(), fixed: Some($l),
            draw: |_| $N::random().iter().flat_map(|x| x.declassify().to_le_bytes().to_vec()).collect() });
        $v.push(Src { name: concat!("vector of ", stringify!($T)), width: std::mem::size_of::<$base>(), fixed: None,
            draw: |n| $N::get_random_vec(n).iter().flat_map(|x| x.declassify().to_le_bytes().to_vec()).collect() });
    }};
    ($v:ident, public, $N:ident, $l:literal, $T:ident, $base:ident) => {{
        array!($N, $l, $T);
        $v.push(Src { name: concat!("array of ", stringify!($T)), width: std::mem::size_of::<$base>(), fixed: Some($l),
            draw: |_| $N::random().iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() });
        $v.push(Src { name: concat!("vector of ", stringify!($T)), width: std::mem::size_of::<$base>(), fixed: None,
            draw: |n| $N::get_random_vec(n).iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() });
    }};
}
bytes!(Bytes40, 40);
public_bytes!(PubBytes40, 40);
bytes!(Bytes1, 1);

fn sources() -> Vec<Src> {
    let mut v = vec![];
    v.push(Src { name: "byte sequence", width: 1, fixed: None, draw: |n| ByteSeq::random(n).iter().map(|x| x.declassify()).collect() });
    v.push(Src { name: "bytes", width: 1, fixed: Some(40), draw: |_| Bytes40::random().iter().map(|x| x.declassify()).collect() });
    v.push(Src { name: "one byte", width: 1, fixed: Some(1), draw: |_| Bytes1::random().iter().map(|x| x.declassify()).collect() });
    v.push(Src { name: "public bytes", width: 1, fixed: Some(40), draw: |_| PubBytes40::random().iter().cloned().collect() });
    arr!(v, sec, R16, 9, U16, u16);
    arr!(v, sec, R32, 16, U32, u32);
    arr!(v, sec, R64, 5, U64, u64);
    arr!(v, sec, R128, 7, U128, u128);
    arr!(v, public, Q8, 33, u8, u8);
    arr!(v, public, Q16, 12, u16, u16);
    arr!(v, public, Q32, 8, u32, u32);
    arr!(v, public, Q64, 6, u64, u64);
    arr!(v, public, Q128, 4, u128, u128);
    v
}

poly!(Ring2, u128, 37, 2, [(0, 1u128), (37, 1u128)]);
poly!(Ring3, i64, 20, 3, [(0, 1i64), (20, 1i64)]);
poly!(Ring257, i32, 16, 257, [(0, 1i32), (16, 1i32)]);
poly!(Ring3329, i128, 256, 3329, [(0, 1i128), (256, 1i128)]);
poly!(RingBig, u64, 9, 0xffff_ffff_0000_0001, [(0, 1u64), (9, 1u64)]);
type Ring = (&'static str, u128, fn() -> Vec<i128>);
const RINGS: &[Ring] = &[
    ("Z_2[x] elements", 2, || Ring2::random().poly.iter().map(|c| *c as i128).collect()),
    ("Z_3[x] elements", 3, || Ring3::random().poly.iter().map(|c| *c as i128).collect()),
    ("Z_257[x] elements", 257, || Ring257::random().poly.iter().map(|c| *c as i128).collect()),
    ("Z_3329[x] elements", 3329, || Ring3329::random().poly.iter().map(|c| *c as i128).collect()),
    ("Z_p[x] elements, p of 64 bits", 0xffff_ffff_0000_0001, || RingBig::random().poly.iter().map(|c| *c as i128).collect()),
];
/// Coefficients lie in [0, n) and spread evenly over 16 (or n) equal parts of it at every position;
/// no two draws agree.
fn ring(c: &Draws, r: &mut Rec) -> Res {
    let (name, n, draw) = RINGS[c.source % RINGS.len()];
    r.nontrivial(true);
    r.class(name);
    let parts = n.min(16);
    let draws = 100 * parts as usize + c.extra;
    let mut seen = std::collections::HashSet::new();
    let mut count: Vec<Vec<u64>> = vec![];
    let (mut low, mut high) = (i128::MAX, 0);
    for _ in 0..draws {
        let d = no_panic(name, draw)?;
        count.resize(d.len(), vec![0; parts as usize]);
        for (k, x) in d.iter().enumerate() {
            ensure(*x >= 0 && (*x as u128) < n, || format!("coefficient {} of {}", x, name))?;
            count[k][(*x as u128 * parts / n) as usize] += 1;
            low = low.min(*x);
            high = high.max(*x);
        }
        if n > 3 {
            ensure(seen.insert(d), || format!("{} drawn twice", name))?;
        }
    }
    for (k, h) in count.iter().enumerate() {
        // mean 100, standard deviation 10
        ensure(h.iter().all(|x| (*x as i64 - 100).abs() < 130) && h.iter().all(|x| *x > 5), || format!("coefficient {} of {} is uneven: {:?} in {} draws", k, name, h, draws))?;
    }
    // 25600 coefficients for n = 257: each end is hit
    ensure(n > 257 || (low == 0 && high == n as i128 - 1), || format!("{}: coefficients from {} to {}", name, low, high))?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    source: usize,
    len: usize,
    extra: usize,
}

/// Every bit of every element takes both values, changes between draws and differs from every other bit;
/// every byte value occurs at every byte position of an element, none too often.
fn statistics(s: &Src, c: &Draws, r: &mut Rec) -> Res {
    let n = s.fixed.unwrap_or(c.len);
    r.nontrivial(n > 0);
    r.class(s.name);
    r.class_if(n == 0, "empty");
    let draws = 256 + c.extra;
    let mut prev: Option<Vec<u8>> = None;
    let (mut ones, mut zeros, mut changed, mut stayed) = (vec![0u8; n * s.width], vec![0u8; n * s.width], vec![0u8; n * s.width], vec![0u8; n * s.width]);
    let (mut differs, mut equals) = (vec![0u8; n * s.width], vec![0u8; n * s.width]);
    let mut count = vec![[0u64; 256]; s.width];
    let mut total = 0u64;
    let mut distinct = std::collections::HashSet::new();
    let mut i = 0;
    // more draws for short containers, so that every byte value has its chance
    while i < draws || (n > 0 && total < 40_000) {
        i += 1;
        let d = no_panic(s.name, || (s.draw)(n))?;
        eq("bytes drawn", d.len(), n * s.width)?;
        for (k, b) in d.iter().enumerate() {
            ones[k] |= b;
            zeros[k] |= !b;
            count[k % s.width][*b as usize] += 1;
            // the same byte of the next element
            let o = d[(k + s.width) % d.len()];
            differs[k] |= b ^ o;
            equals[k] |= !(b ^ o);
            if let Some(p) = &prev {
                changed[k] |= b ^ p[k];
                stayed[k] |= !(b ^ p[k]);
            }
        }
        total += n as u64;
        if n * s.width >= 16 {
            ensure(distinct.insert(d.clone()), || format!("draw {} of {} x {} repeats an earlier one", i, n, s.name))?;
        }
        prev = Some(d);
    }
    let all = |what: &str, v: &[u8]| -> Res {
        match v.iter().position(|b| *b != 255) {
            None => Ok(()),
            Some(k) => Err(format!("{}: element {} byte {}: bits {:08b} never {} in {} draws of {} x {}", what, k / s.width, k % s.width, !v[k], what, i, n, s.name)),
        }
    };
    all("one", &ones)?;
    all("zero", &zeros)?;
    all("changed between draws", &changed)?;
    all("kept between draws", &stayed)?;
    if n > 1 {
        all("different from the next element's", &differs)?;
        all("equal to the next element's", &equals)?;
    }
    if n > 0 {
        let mean = total as f64 / 256.0; // at least 156
        for (k, h) in count.iter().enumerate() {
            for (b, x) in h.iter().enumerate() {
                // more than eleven standard deviations
                let dev = (*x as f64 - mean).abs();
                ensure(dev < 11.0 * mean.sqrt() + 12.0, || format!("byte value {} at byte {} of an element occurs {} times in {} elements of {}", b, k, x, total, s.name))?;
            }
        }
    }
    Ok(())
}

const FRESH: &str = "VH_RANDOM_CHILD";
fn fresh(c: &Draws) -> Vec<u8> {
    let mut p = Command::new(std::env::current_exe().expect("own path"))
        .env(FRESH, "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    p.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).expect("child input");
    let o = p.wait_with_output().expect("child output");
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    if !o.status.success() || t.is_empty() {
        eprintln!("drawing process failed: {:?}", o.status);
        std::process::exit(5)
    }
    unhex(t.trim())
}

fn c33(ctx: &mut Ctx) {
    ctx.rule("the container drawn is not empty");
    let src = sources();
    let k = src.len();
    ctx.run(
        "statistics",
        3_000,
        40_000,
        || (0..k, prop_oneof![4 => 0..70usize, 1 => 70..600usize], 0..40usize).prop_map(|(source, len, extra)| Draws { source, len, extra }),
        |c: &Draws, r: &mut Rec| statistics(&src[c.source % k], c, r),
    );
    ctx.run(
        "long",
        64,
        600,
        || (0..k, 1_000..70_000usize).prop_map(|(source, len)| Draws { source, len, extra: 0 }),
        |c: &Draws, r: &mut Rec| {
            let s = &src[c.source % k];
            let n = s.fixed.unwrap_or(c.len);
            r.nontrivial(true);
            r.class(s.name);
            let d = no_panic(s.name, || (s.draw)(n))?;
            eq("bytes drawn", d.len(), n * s.width)?;
            // no window of 16 bytes comes twice
            let mut seen = std::collections::HashSet::new();
            for w in d.chunks_exact(16) {
                ensure(seen.insert(w.to_vec()), || format!("a long draw of {} x {} repeats 16 bytes", n, s.name))?;
            }
            Ok(())
        },
    );
    ctx.run("ring-elements", 100, 1_000, || (0..RINGS.len(), 0..40usize).prop_map(|(source, extra)| Draws { source, len: 0, extra }), ring);
    // all sources, drawn at once from new threads and from new processes
    let lens = [16usize, 40, 64];
    let items: Vec<Draws> = (0..k).flat_map(|s| lens.iter().map(move |l| Draws { source: s, len: *l, extra: 4 })).collect();
    ctx.exhaust("across-threads-and-processes", items.into_iter(), |c: &Draws, r: &mut Rec| {
        let s = &src[c.source % k];
        let n = s.fixed.unwrap_or(c.len);
        r.class(s.name);
        r.nontrivial(n > 0);
        if n * s.width < 16 {
            return Ok(());
        }
        let mut got: Vec<Vec<u8>> = vec![no_panic(s.name, || (s.draw)(n))?];
        let f = s.draw;
        let hs: Vec<_> = (0..c.extra).map(|_| std::thread::spawn(move || f(n))).collect();
        for h in hs {
            got.push(h.join().map_err(|_| format!("{} panicked in a new thread", s.name))?);
        }
        for _ in 0..c.extra {
            got.push(fresh(c));
        }
        for i in 0..got.len() {
            eq("bytes drawn", got[i].len(), n * s.width)?;
            for j in 0..i {
                ensure(got[i] != got[j], || format!("two threads or processes drew the same {} x {}: {}", n, s.name, hex(&got[i])))?;
            }
        }
        Ok(())
    });
}

fn main() {
    if std::env::var_os(FRESH).is_some() {
        let c: Draws = serde_json::from_reader(std::io::stdin()).expect("case");
        let s = &sources()[c.source];
        print!("{}", hex(&(s.draw)(s.fixed.unwrap_or(c.len))));
        return;
    }
    main_with(&[("C33", c33)]);
}
