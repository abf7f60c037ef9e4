use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const SHARDS: u64 = 8;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// What a check tells about the case it just judged.
#[derive(Default)]
pub struct Rec {
    pub nontrivial: bool,
    classes: Vec<String>,
}
impl Rec {
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn class_if(&mut self, b: bool, s: &str) {
        if b {
            self.classes.push(s.to_string());
        }
    }
}

pub type Res = Result<(), String>;

/// Fails with the two values when they differ.
pub fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Res {
    if got == want {
        Ok(())
    } else {
        let (g, w) = (format!("{:?}", got), format!("{:?}", want));
        if g.len().max(w.len()) <= 1200 {
            return Err(format!("{}: got {}, want {}", what, g, w));
        }
        // long values: the part around the first difference
        let at = g.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        let part = |s: &str| s.bytes().skip(at.saturating_sub(40)).take(200).map(|b| b as char).collect::<String>();
        Err(format!("{}: at character {} got ..{}.. ({} in all), want ..{}.. ({} in all)", what, at, part(&g), g.len(), part(&w), w.len()))
    }
}
pub fn ensure(c: bool, what: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(what())
    }
}

/// Runs `f`, turning a panic into Err(message).
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        }
    })
}
/// The code must return normally; a panic is a failure described by `what`.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    caught(f).map_err(|e| format!("{} panicked: {}", what, e))
}
/// The code must panic.
pub fn must_panic<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> T) -> Res {
    match caught(f) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{} returned {:?}, must be rejected by a panic", what, v)),
    }
}
/// `want` None: must panic; Some(v): must return v.
pub fn exact_or_panic<T: PartialEq + std::fmt::Debug>(
    what: &str,
    want: Option<T>,
    f: impl FnOnce() -> T,
) -> Res {
    match (want, caught(f)) {
        (None, Err(_)) => Ok(()),
        (None, Ok(g)) => Err(format!("{} returned {:?}, must panic", what, g)),
        (Some(w), Err(e)) => Err(format!("{} panicked ({}), must be {:?}", what, e, w)),
        (Some(w), Ok(g)) => eq(what, g, w),
    }
}

#[derive(Clone)]
struct Violation {
    sub: String,
    input: serde_json::Value,
    message: String,
}

#[derive(Default)]
struct SubStats {
    evaluations: u64,
    nontrivial: u64,
    discarded: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    exhaustive: bool,
}

enum Mode {
    Search,
    Replay { sub: String, input: serde_json::Value },
}

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    mode: Mode,
    rule: String,
    stats: BTreeMap<String, SubStats>,
    order: Vec<String>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    known_hits: Vec<String>,
    started: Instant,
    out: File,
    replayed: bool,
    only: Option<String>,
    factor: u64,
    regress: BTreeMap<String, Vec<serde_json::Value>>,
    extra: BTreeMap<String, serde_json::Value>,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ fnv(name).rotate_left(17) ^ shard.wrapping_mul(0x9E3779B97F4A7C15);
    for i in 0..4 {
        // splitmix64
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn clip(s: String, n: usize) -> String {
    if s.len() <= n {
        s
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…({} chars)", &s[..k], s.len())
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Checks whose cases are cheap run more of them, for about half a minute each on eight cores.
fn cheapness(property: &str) -> u64 {
    match property {
        "C10" | "C23" | "C26" => 12,
        "C03" | "C13" | "C15" | "C24" | "C25" | "C30" => 8,
        "C11" | "C19" | "C20" | "C21" | "C27" => 6,
        "C16" | "C17" | "C22" => 5,
        "C01" | "C02" | "C12" | "C14" | "C18" => 3,
        "C04" | "C07" | "C29" => 2,
        _ => 1,
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Number of cases for this tier, scaled by VERIF_SCALE (percent, default 100).
    fn cases(&self, quick: u64, thorough: u64) -> u64 {
        let quick = quick * cheapness(&self.property);
        let n = if self.thorough() { thorough.max(quick) } else { quick };
        let scale: u64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
        (n * self.factor * scale / 100).max(8)
    }
    /// Multiplies the case counts of the sub-checks that follow.
    pub fn factor(&mut self, f: u64) {
        self.factor = f;
    }
    pub fn rule(&mut self, r: &str) {
        self.rule = r.to_string();
    }
    pub fn note(&mut self, k: &str, v: impl Serialize) {
        self.extra.insert(k.into(), serde_json::to_value(v).unwrap());
    }

    /// The input for `sub` when replaying it.
    fn replay_for(&mut self, sub: &str) -> Option<Option<serde_json::Value>> {
        match &self.mode {
            Mode::Search => {
                if let Some(o) = &self.only {
                    if o != sub {
                        return Some(None);
                    }
                }
                None
            }
            Mode::Replay { sub: s, input } => {
                if s == sub {
                    self.replayed = true;
                    Some(Some(input.clone()))
                } else {
                    Some(None)
                }
            }
        }
    }

    fn stat(&mut self, sub: &str) -> &mut SubStats {
        if !self.order.iter().any(|s| s == sub) {
            self.order.push(sub.to_string());
        }
        self.stats.entry(sub.to_string()).or_default()
    }

    fn record_violation(&mut self, sub: &str, input: serde_json::Value, message: String) {
        self.violations.push(Violation { sub: sub.into(), input, message });
    }

    /// Judge saved inputs first (regressions and the replay file).
    fn judge_json<T: DeserializeOwned>(
        &mut self,
        sub: &str,
        v: serde_json::Value,
        check: &(impl Fn(&T, &mut Rec) -> Res + Sync),
    ) {
        let t: T = match serde_json::from_value(v.clone()) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("cannot decode saved input for {}: {}", sub, e);
                std::process::exit(4)
            }
        };
        let mut rec = Rec::default();
        let r = judge(&t, &mut rec, check);
        let st = self.stat(sub);
        st.evaluations += 1;
        *st.classes.entry("saved-input".into()).or_default() += 1;
        if let Err(m) = r {
            self.record_violation(sub, v, m);
        }
    }

    /// Generated-input search: `quick`/`thorough` cases of `mk()` judged by `check`.
    pub fn run<T, S>(
        &mut self,
        sub: &str,
        quick: u64,
        thorough: u64,
        mk: impl Fn() -> S + Sync,
        check: impl Fn(&T, &mut Rec) -> Res + Sync,
    ) where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send,
        S: Strategy<Value = T>,
    {
        if let Some(r) = self.replay_for(sub) {
            if let Some(v) = r {
                self.judge_json(sub, v, &check);
            }
            return;
        }
        for v in self.regress.remove(sub).unwrap_or_default() {
            self.judge_json(sub, v, &check);
        }
        let total = self.cases(quick, thorough);
        let per = (total + SHARDS - 1) / SHARDS;
        let seed = self.seed;
        let name = format!("{}/{}", self.property, sub);
        let known: Vec<String> = self
            .known
            .iter()
            .filter(|(s, _)| s == sub)
            .map(|(_, i)| i.clone())
            .collect();
        let results: Mutex<Vec<(u64, SubStats, HashSet<u64>, Option<(String, serde_json::Value, String)>, Vec<String>)>> =
            Mutex::new(vec![]);
        // A failing shard stops the others early only after they finish the case at hand.
        let failed_at = AtomicU64::new(u64::MAX);
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (mk, check, results, name, known, failed_at) =
                    (&mk, &check, &results, &name, &known, &failed_at);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = SubStats::default();
                        let mut seen = HashSet::new();
                        let mut fail = None;
                        let mut hits = vec![];
                        let cfg = Config {
                            failure_persistence: None,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, name, shard));
                        let mut tr = TestRunner::new_with_rng(cfg, rng);
                        let strat = mk();
                        for i in 0..per {
                            if failed_at.load(Ordering::Relaxed) <= i {
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut tr) {
                                Ok(t) => t,
                                Err(_) => {
                                    st.discarded += 1;
                                    continue;
                                }
                            };
                            let v = tree.current();
                            let mut rec = Rec::default();
                            let r = judge(&v, &mut rec, check);
                            st.evaluations += 1;
                            for c in rec.classes.drain(..) {
                                *st.classes.entry(c).or_default() += 1;
                            }
                            if rec.nontrivial {
                                let j = serde_json::to_string(&v).unwrap();
                                if seen.insert(fnv(&j)) && shard == 0 && st.samples.len() < 2 {
                                    st.samples.push(clip(j, 600));
                                }
                            }
                            if let Err(m) = r {
                                let j = serde_json::to_string(&v).unwrap();
                                if known.contains(&j) {
                                    hits.push(j);
                                    continue;
                                }
                                failed_at.fetch_min(i, Ordering::Relaxed);
                                fail = Some(shrink(&mut tree, v, m, check));
                                break;
                            }
                        }
                        let f = fail.map(|(v, m)| {
                            let j = serde_json::to_value(&v).unwrap();
                            (serde_json::to_string(&v).unwrap(), j, m)
                        });
                        results.lock().unwrap().push((shard, st, seen, f, hits));
                    })
                    .unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut all = HashSet::new();
        let mut first: Option<(String, serde_json::Value, String)> = None;
        let mut hits_all = vec![];
        {
            let st = self.stat(sub);
            for (_, s, seen, f, hits) in rs {
                st.evaluations += s.evaluations;
                st.discarded += s.discarded;
                for (k, v) in s.classes {
                    *st.classes.entry(k).or_default() += v;
                }
                st.samples.extend(s.samples);
                all.extend(seen);
                if let Some(f) = f {
                    let better = match &first {
                        None => true,
                        Some(g) => f.0.len() < g.0.len(),
                    };
                    if better {
                        first = Some(f);
                    }
                }
                hits_all.extend(hits);
            }
            st.nontrivial += all.len() as u64;
        }
        self.known_hits.extend(hits_all);
        if let Some((_, j, m)) = first {
            self.record_violation(sub, j, m);
        }
    }

    /// Enumerates a finite space completely (no shrinking needed: small by construction).
    pub fn exhaust<T>(
        &mut self,
        sub: &str,
        items: impl Iterator<Item = T>,
        check: impl Fn(&T, &mut Rec) -> Res + Sync,
    ) where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Sync,
    {
        if let Some(r) = self.replay_for(sub) {
            if let Some(v) = r {
                self.judge_json(sub, v, &check);
            }
            return;
        }
        for v in self.regress.remove(sub).unwrap_or_default() {
            self.judge_json(sub, v, &check);
        }
        let items: Vec<T> = items.collect();
        let n = items.len();
        let failed_at = AtomicU64::new(u64::MAX);
        let merged: Mutex<(SubStats, Option<(usize, serde_json::Value, String)>)> =
            Mutex::new((SubStats { exhaustive: true, ..Default::default() }, None));
        std::thread::scope(|sc| {
            for shard in 0..SHARDS as usize {
                let (items, check, merged, failed_at) = (&items, &check, &merged, &failed_at);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = SubStats::default();
                        let mut viol = None;
                        let mut i = shard;
                        while i < n && (i as u64) < failed_at.load(Ordering::Relaxed) {
                            let v = &items[i];
                            let mut rec = Rec::default();
                            let r = judge(v, &mut rec, check);
                            st.evaluations += 1;
                            for c in rec.classes.drain(..) {
                                *st.classes.entry(c).or_default() += 1;
                            }
                            if rec.nontrivial {
                                st.nontrivial += 1;
                                if shard == 0 && st.samples.len() < 2 {
                                    st.samples.push(clip(serde_json::to_string(v).unwrap(), 600));
                                }
                            }
                            if let Err(m) = r {
                                failed_at.fetch_min(i as u64, Ordering::Relaxed);
                                viol = Some((i, serde_json::to_value(v).unwrap(), m));
                                break;
                            }
                            i += SHARDS as usize;
                        }
                        let mut g = merged.lock().unwrap();
                        g.0.evaluations += st.evaluations;
                        g.0.nontrivial += st.nontrivial;
                        g.0.samples.extend(st.samples);
                        for (k, v) in st.classes {
                            *g.0.classes.entry(k).or_default() += v;
                        }
                        if let Some(v) = viol {
                            // the first item in the order of the enumeration is the one reported
                            if g.1.as_ref().map_or(true, |w| v.0 < w.0) {
                                g.1 = Some(v);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let (st, viol) = merged.into_inner().unwrap();
        let viol = viol.map(|(_, v, m)| (v, m));
        let s = self.stat(sub);
        s.evaluations += st.evaluations;
        s.nontrivial += st.nontrivial;
        s.exhaustive = true;
        s.samples = st.samples;
        for (k, v) in st.classes {
            *s.classes.entry(k).or_default() += v;
        }
        if let Some((v, m)) = viol {
            self.record_violation(sub, v, m);
        }
    }

    fn finish(mut self) -> i32 {
        let replay_mode = matches!(self.mode, Mode::Replay { .. });
        if replay_mode && !self.replayed {
            eprintln!("replay file names an unknown sub-check");
            return 4;
        }
        let root = verif_dir();
        let mut code = 0;
        let mut printed = vec![];
        let viols = std::mem::take(&mut self.violations);
        let mut unlisted = 0;
        for (i, v) in viols.iter().enumerate() {
            let jin = serde_json::to_string(&v.input).unwrap();
            if self.known.iter().any(|(s, k)| *s == v.sub && *k == jin) {
                printed.push(format!("KNOWN-FINDING: property={} {}: {}", self.property, v.sub, clip(v.message.clone(), 300)));
                continue;
            }
            code = 1;
            unlisted += 1;
            let path = if replay_mode {
                std::env::args().last().unwrap()
            } else {
                let _ = fs::create_dir_all(format!("{}/replays", root));
                let p = format!("{}/replays/{}-{}-{}.json", root, self.property, v.sub.replace('/', "_"), i);
                let body = serde_json::json!({
                    "property": self.property, "sub": v.sub, "input": v.input, "message": v.message,
                    "replay_with": format!("./check.sh {} --replay {}", self.property, p),
                });
                fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
                p
            };
            printed.push(format!("{}: {} failed: {} on {}", self.property, v.sub, clip(v.message.clone(), 600), clip(jin, 600)));
            printed.push(format!("VIOLATION property={} replay={}", self.property, path));
        }
        for h in &self.known_hits {
            printed.push(format!("KNOWN-FINDING: property={} {}", self.property, clip(h.clone(), 300)));
        }
        printed.dedup();
        if !replay_mode {
            let mut evals = 0;
            let mut nt = 0;
            let mut samples = vec![];
            let mut subs = serde_json::Map::new();
            for s in &self.order {
                let st = &self.stats[s];
                evals += st.evaluations;
                nt += st.nontrivial;
                for x in &st.samples {
                    samples.push(format!("{}: {}", s, x));
                }
                subs.insert(
                    s.clone(),
                    serde_json::json!({"evaluations": st.evaluations, "distinct_nontrivial": st.nontrivial,
                        "discarded": st.discarded, "exhaustive": st.exhaustive, "classes": st.classes}),
                );
            }
            let mut cov = serde_json::json!({
                "evaluations": evals, "distinct_nontrivial": nt, "rule": self.rule,
                "samples": samples, "sub_checks": subs,
            });
            for (k, v) in std::mem::take(&mut self.extra) {
                cov[k] = v;
            }
            let ev = serde_json::json!({
                "property": self.property, "tier": self.tier, "seed": self.seed, "level": "exploration",
                "coverage": cov, "wall_s": self.started.elapsed().as_secs_f64(),
                "violations": unlisted, "known_findings": viols.len() - unlisted + self.known_hits.len(),
            });
            let _ = fs::create_dir_all(format!("{}/evidence", root));
            fs::write(format!("{}/evidence/{}.json", root, self.property), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            printed.push(format!(
                "{} {}: {} cases, {} distinct non-trivial, {:.1}s, {} violation(s)",
                self.property, self.tier, evals, nt, self.started.elapsed().as_secs_f64(), unlisted
            ));
        } else if code == 0 {
            printed.push(format!("{}: replayed input passes", self.property));
        }
        for l in printed {
            let _ = writeln!(self.out, "{}", l);
        }
        let _ = self.out.flush();
        code
    }
}

fn judge<T>(v: &T, rec: &mut Rec, check: &(impl Fn(&T, &mut Rec) -> Res + Sync)) -> Res {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(|| check(v, rec))) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default()
        )),
    }
}

/// Bounded shrink on proptest's own value tree; stays inside the generator's domain.
fn shrink<T: Clone>(
    tree: &mut impl ValueTree<Value = T>,
    v: T,
    m: String,
    check: &(impl Fn(&T, &mut Rec) -> Res + Sync),
) -> (T, String) {
    let mut best = (v, m);
    let started = Instant::now();
    let mut n = 0;
    if !tree.simplify() {
        return best;
    }
    // bounded by iterations; the clock only cuts shrinking short, it never decides a verdict
    while n < 5000 && started.elapsed().as_secs() < 25 {
        n += 1;
        let c = tree.current();
        match judge(&c, &mut Rec::default(), check) {
            Err(m) => {
                best = (c, m);
                if !tree.simplify() {
                    break;
                }
            }
            Ok(()) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    best
}

/// Fd that still reaches the real stdout; fds 1 and 2 of the process go to `sink`.
fn capture_stdio(sink: &str) -> File {
    unsafe {
        let real = dup(1);
        let f = File::create(sink).expect("sink");
        use std::os::fd::AsRawFd;
        dup2(f.as_raw_fd(), 1);
        File::from_raw_fd(real)
    }
}

pub type PropFn = fn(&mut Ctx);

/// Entry point of each binary: `<bin> <property> [--replay FILE | --only SUB]`.
pub fn main_with(props: &[(&str, PropFn)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let f = match props.iter().find(|p| p.0 == id) {
        Some(p) => p.1,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    let mut mode = Mode::Search;
    let mut only = None;
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let body: serde_json::Value =
            serde_json::from_str(&fs::read_to_string(&args[3]).expect("replay file")).expect("replay json");
        mode = Mode::Replay { sub: body["sub"].as_str().unwrap().into(), input: body["input"].clone() };
    } else if args.get(2).map(|s| s.as_str()) == Some("--only") {
        only = Some(args[3].clone());
    }
    let root = verif_dir();
    let mut known = vec![];
    if let Ok(s) = fs::read_to_string(format!("{}/known_findings.json", root)) {
        let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
        for e in v["findings"].as_array().unwrap_or(&vec![]) {
            if e["property"] == id.as_str() {
                known.push((e["sub"].as_str().unwrap().to_string(), serde_json::to_string(&e["input"]).unwrap()));
            }
        }
    }
    let mut regress: BTreeMap<String, Vec<serde_json::Value>> = BTreeMap::new();
    if let Ok(rd) = fs::read_dir(format!("{}/regress/{}", root, id)) {
        let mut ps: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "json")).collect();
        ps.sort();
        for p in ps {
            let b: serde_json::Value = serde_json::from_str(&fs::read_to_string(&p).unwrap()).expect("regress json");
            regress.entry(b["sub"].as_str().unwrap().into()).or_default().push(b["input"].clone());
        }
    }
    let out = capture_stdio("/dev/null");
    std::panic::set_hook(Box::new(|_| {}));
    // Watchdog: no case finished for ten minutes is an error of the run, never a verdict.
    std::thread::spawn(|| {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(10));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last {
                still += 1;
            } else {
                still = 0;
                last = now;
            }
            if still >= 60 {
                eprintln!("watchdog: no case finished for 600 s (inconclusive)");
                std::process::exit(3);
            }
        }
    });
    let mut ctx = Ctx {
        property: id.clone(),
        tier: std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        mode,
        rule: String::new(),
        stats: BTreeMap::new(),
        order: vec![],
        violations: vec![],
        known,
        known_hits: vec![],
        started: Instant::now(),
        out,
        replayed: false,
        only,
        factor: 1,
        regress,
        extra: BTreeMap::new(),
    };
    // Big stack: some reference recursion and repo recursion run on this thread.
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            f(&mut ctx);
            ctx.finish()
        })
        .unwrap()
        .join();
    match code {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
            eprintln!("harness error: the check itself panicked outside a case: {}", m.unwrap_or_default());
            std::process::exit(5)
        }
    }
}
