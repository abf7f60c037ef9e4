//! C32: what runs does not depend on secrets: edges taken, array indices and divisors are the same
//! for any two secrets of the same shape.
use ctops::{ops, Arg, In};
use secret_integers::{U128, U8};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use vh::*;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TRACE: RefCell<Vec<(u8, u64)>> = const { RefCell::new(Vec::new()) };
}
thread_local! {
    static WHERE: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Event at which to note where the program is, when explaining a failure.
static STOP: AtomicUsize = AtomicUsize::new(usize::MAX);
static NEXT: AtomicU32 = AtomicU32::new(1);

fn record(kind: u8, v: u64) {
    if ON.with(|o| o.get()) {
        if STOP.load(Ordering::Relaxed) == TRACE.with(|t| t.borrow().len()) {
            ON.with(|o| o.set(false));
            let b = std::backtrace::Backtrace::force_capture().to_string();
            WHERE.with(|w| *w.borrow_mut() = b);
            ON.with(|o| o.set(true));
        }
        TRACE.with(|t| t.borrow_mut().push((kind, v)));
    }
}
/// # Safety
/// Called by the instrumentation with the bounds of its guard array.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT.fetch_add(1, Ordering::Relaxed);
        }
        p = p.add(1);
    }
}
/// # Safety
/// Called by the instrumentation with the guard of the edge taken.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    record(0, *guard as u64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_gep(i: usize) {
    record(1, i as u64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div4(v: u32) {
    record(2, v as u64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div8(v: u64) {
    record(2, v);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Secret {
    a: W,
    b: W,
    bit: bool,
    data: B,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    op: usize,
    k: u32,
    x: Secret,
    y: Secret,
}

fn trace(f: fn(&In), s: &Secret, k: u32) -> Result<Vec<(u8, u64)>, String> {
    let i = In {
        a: U128::classify(s.a.0),
        b: U128::classify(s.b.0),
        bit: U128::classify(s.bit as u128),
        data: s.data.iter().map(|b| U8::classify(*b)).collect(),
        k,
    };
    TRACE.with(|t| t.borrow_mut().clear());
    ON.with(|o| o.set(true));
    let r = caught(|| f(&i));
    ON.with(|o| o.set(false));
    r.map(|_| TRACE.with(|t| std::mem::take(&mut *t.borrow_mut())))
}

/// A request to the valgrind this runs under (no effect and `0` elsewhere).
#[cfg(target_arch = "x86_64")]
fn request(code: u64, p: u64, n: u64) -> u64 {
    let args = [code, p, n, 0, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0u64 => _,
        );
    }
    r
}
#[cfg(target_arch = "x86_64")]
fn poison<T>(x: &mut [T]) {
    const MAKE_MEM_UNDEFINED: u64 = ((b'M' as u64) << 24) + ((b'C' as u64) << 16) + 1;
    request(MAKE_MEM_UNDEFINED, x.as_mut_ptr() as u64, std::mem::size_of_val(x) as u64);
}
fn errors() -> u64 {
    const COUNT_ERRORS: u64 = 0x1201;
    request(COUNT_ERRORS, 0, 0)
}

/// One operation on inputs of given shapes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tainted {
    op: String,
    seed: u64,
    /// (public number, length of the byte string)
    shapes: Vec<(u32, usize)>,
}
fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// Runs under valgrind: the secrets are undefined memory, so that every branch and every address
/// that depends on one is an error, whatever its value.
fn taint_child(c: &Tainted) {
    std::panic::set_hook(Box::new(|_| {}));
    let all = ops();
    let f = all.iter().find(|o| o.0 == c.op).expect("operation").2;
    // the detector has to see a branch on a secret, and nothing where there is none
    let mut v = vec![U8::classify(1u8); 4];
    poison(&mut v[..]);
    let before = errors();
    if v[2].declassify() == std::hint::black_box(7) {
        std::hint::black_box(&v);
    }
    let seen = errors() - before;
    eprintln!("-- control");
    let mut counts = vec![];
    let mut s = c.seed;
    for (k, n) in &c.shapes {
        let mut w = [0u128; 3];
        for x in w.iter_mut().take(2) {
            *x = (mix(&mut s) as u128) << 64 | mix(&mut s) as u128;
        }
        w[2] = (mix(&mut s) & 1) as u128;
        let mut data: Vec<U8> = (0..*n).map(|_| U8::classify(mix(&mut s) as u8)).collect();
        poison(&mut w[..]);
        poison(&mut data[..]);
        let i = In { a: U128::classify(w[0]), b: U128::classify(w[1]), bit: U128::classify(w[2]), data, k: *k };
        let before = errors();
        let r = caught(|| f(&i));
        counts.push((errors() - before, r.is_ok()));
        std::mem::forget(i);
    }
    println!("{}", serde_json::to_string(&(seen, counts)).unwrap());
}
fn taint(c: &Tainted, r: &mut Rec) -> Res {
    use std::io::Write;
    use std::process::{Command, Stdio};
    r.class(c.op.as_str());
    r.nontrivial(true);
    let broken = |what: String| -> ! {
        eprintln!("C32 taint: {}", what);
        std::process::exit(2)
    };
    let mut p = Command::new("valgrind")
        .args(["--error-limit=no", "--leak-check=no", "--undef-value-errors=yes", "--num-callers=8", "-q"])
        .arg(std::env::current_exe().unwrap())
        .arg("--taint")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| broken(format!("valgrind does not start: {}", e)));
    p.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).unwrap();
    let o = p.wait_with_output().unwrap_or_else(|e| broken(e.to_string()));
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let (seen, counts): (u64, Vec<(u64, bool)>) = match serde_json::from_slice(&o.stdout) {
        Ok(x) => x,
        Err(e) => broken(format!("no report from {}: {} {} {}", c.op, e, o.status, err)),
    };
    if seen == 0 {
        broken("the control branch was not seen".into());
    }
    for ((k, n), (bad, ok)) in c.shapes.iter().zip(&counts) {
        ensure(*ok, || format!("{}: panicked with a public {} and {} bytes", c.op, k, n))?;
        ensure(*bad == 0, || {
            let t = err.split("-- control").nth(1).unwrap_or("");
            let t: Vec<String> = t
                .lines()
                .filter_map(|l| l.split("== ").nth(1))
                .take(6)
                .map(|l| l.trim().split("0x").next().unwrap().to_string() + l.split(": ").nth(1).unwrap_or(""))
                .collect();
            format!("{}: a branch or an address depends on a secret (public {} and {} bytes): {}", c.op, k, n, t.join(" | "))
        })?;
    }
    Ok(())
}

fn secret(n: usize) -> impl Strategy<Value = Secret> {
    (word2(128), any::<bool>(), bytes_n(n)).prop_map(|((a, b), bit, data)| Secret { a, b, bit, data })
}

fn c32(ctx: &mut Ctx) {
    ctx.rule("the two secrets differ and the trace has at least one edge; every operation is covered by name");
    let all = ops();
    let names: Vec<&str> = all.iter().map(|o| o.0).collect();
    let check = |c: &Case, r: &mut Rec| -> Res {
        let (name, _, f) = &all[c.op % all.len()];
        r.class(*name);
        let t = trace(*f, &c.x, c.k).map_err(|e| format!("{} panicked: {}", name, e))?;
        let u = trace(*f, &c.y, c.k).map_err(|e| format!("{} panicked: {}", name, e))?;
        r.nontrivial(!t.is_empty() && (c.x.a.0 != c.y.a.0 || c.x.data != c.y.data));
        // only a difference that is there again counts: each trace must repeat itself
        if t != u {
            if trace(*f, &c.x, c.k).as_ref() != Ok(&t) || trace(*f, &c.y, c.k).as_ref() != Ok(&u) {
                r.class("trace does not repeat");
                return Ok(());
            }
        }
        if t != u {
            let at = t.iter().zip(&u).position(|(a, b)| a != b).unwrap_or(t.len().min(u.len()));
            let mut seen = vec![];
            if std::env::var("CT_EXPLAIN").is_ok() {
                for s in [&c.x, &c.y] {
                    STOP.store(at, Ordering::Relaxed);
                    let _ = trace(*f, s, c.k);
                    STOP.store(usize::MAX, Ordering::Relaxed);
                    seen.push(WHERE.with(|w| std::mem::take(&mut *w.borrow_mut())));
                }
                eprintln!("{}", seen.join("\n--------\n"));
            }
            let kind = |e: Option<&(u8, u64)>| match e {
                None => "end".to_string(),
                Some((0, g)) => format!("edge {}", g),
                Some((1, i)) => format!("index {}", i),
                Some((_, d)) => format!("divisor {}", d),
            };
            return Err(format!("{}: execution depends on the secret: event {} of {}/{} is {} for one secret and {} for the other", name, at, t.len(), u.len(), kind(t.get(at)), kind(u.get(at))));
        }
        ensure(!t.is_empty(), || format!("{}: nothing was traced (instrumentation missing)", name))
    };
    let (words, bytes): (Vec<usize>, Vec<usize>) = {
        let w = all.iter().enumerate().filter(|o| matches!(o.1 .1, Arg::Words)).map(|o| o.0).collect();
        let b = all.iter().enumerate().filter(|o| matches!(o.1 .1, Arg::Bytes)).map(|o| o.0).collect();
        (w, b)
    };
    ctx.run(
        "words",
        200_000,
        2_000_000,
        || (prop::sample::select(words.clone()), 0..256u32, secret(0), secret(0)).prop_map(|(op, k, x, y)| Case { op, k, x, y }),
        check,
    );
    ctx.run(
        "bytes",
        5_000,
        60_000,
        || {
            (prop::sample::select(bytes.clone()), 0..300u32, prop_oneof![3 => 0..70usize, 2 => 70..300usize, 1 => prop_oneof![Just(64usize), Just(128), Just(136), Just(56)]])
                .prop_flat_map(|(op, k, n)| (secret(n), secret(n)).prop_map(move |(x, y)| Case { op, k, x, y }))
        },
        check,
    );
    // The same without comparing values: memory that holds secrets is marked, and what they reach followed.
    const LENS: &[usize] = &[0, 64, 1, 55, 128, 17, 56, 63, 65, 136, 111, 112, 127, 129, 135, 137, 143, 144, 72, 104, 103, 168, 299, 71, 167, 256, 300];
    let (rounds, per) = if ctx.thorough() { (9, 9) } else { (2, 7) };
    let mut s = ctx.seed;
    let mut items = vec![];
    for round in 0..rounds {
        for (name, arg, _) in &all {
            let shapes = (0..per)
                .map(|j| match arg {
                    Arg::Words => ((mix(&mut s) % 256) as u32, 0),
                    Arg::Bytes => {
                        let n = match LENS.get(round * per + j) {
                            Some(n) => *n,
                            None => (mix(&mut s) % 400) as usize,
                        };
                        ((mix(&mut s) % 300) as u32, n)
                    }
                })
                .collect();
            items.push(Tainted { op: name.to_string(), seed: mix(&mut s), shapes });
        }
    }
    ctx.exhaust("taint", items.into_iter(), taint);
    ctx.note("operations", names);
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--taint") {
        let c: Tainted = serde_json::from_reader(std::io::stdin()).expect("case");
        return taint_child(&c);
    }
    main_with(&[("C32", c32)])
}
