//! C30: test-vector files are read exactly as written or refused.
use hacspec_dev::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::runner::*;

create_test_vectors!(
    Outer,
    algorithm: String,
    numberOfTests: u64,
    delta: i64,
    valid: bool,
    testGroups: Vec<Inner>
);
create_test_vectors!(Inner, tcId: u32, key: String, flags: Vec<String>, small: u8, tag: Option<String>);
create_test_vectors!(One, msg: String);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct MInner {
    id: u32,
    key: String,
    flags: Vec<String>,
    small: u8,
    tag: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct MOuter {
    alg: String,
    n: u64,
    delta: i64,
    valid: bool,
    groups: Vec<MInner>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    None,
    /// leave out the field with this index (record, field)
    Missing(u8, u8),
    /// give the field a value of another JSON type
    WrongType(u8, u8),
    /// an integer field just outside its type
    OutOfRange(u8, bool),
    /// cut the file after this fraction of its bytes
    Truncate(u16),
    /// text after the document
    Trailing(u8),
    Duplicate(u8, u8),
    NoSuchFile,
    /// an array where a record is wanted, or the other way round
    Shape,
    /// a byte that is no UTF-8 inside a string
    BadUtf8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    docs: Vec<MOuter>,
    array: bool,
    style: Vec<u8>,
    fault: Fault,
}

/// Writes JSON by hand: white space, escapes, key order and extra keys come from `style`.
struct W<'a> {
    out: Vec<u8>,
    style: &'a [u8],
    pos: usize,
}
impl<'a> W<'a> {
    fn pick(&mut self) -> u8 {
        if self.style.is_empty() {
            return 0;
        }
        let b = self.style[self.pos % self.style.len()];
        self.pos += 1;
        b
    }
    fn raw(&mut self, s: &str) {
        self.out.extend_from_slice(s.as_bytes());
    }
    fn ws(&mut self) {
        match self.pick() % 8 {
            5 => self.raw(" "),
            6 => self.raw("\r\n\t"),
            7 => self.raw("\n    "),
            _ => (),
        }
    }
    fn string(&mut self, s: &str) {
        self.raw("\"");
        for c in s.chars() {
            let esc = self.pick() % 4 == 3;
            match c {
                '"' => self.raw("\\\""),
                '\\' => self.raw("\\\\"),
                '\n' if !esc => self.raw("\\n"),
                '\t' if !esc => self.raw("\\t"),
                '\r' if !esc => self.raw("\\r"),
                '\u{8}' if !esc => self.raw("\\b"),
                '\u{c}' if !esc => self.raw("\\f"),
                '/' if esc => self.raw("\\/"),
                c if (c as u32) < 0x20 || esc => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b).iter() {
                        let t = if self.pick() % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                        self.raw(&t);
                    }
                }
                c => {
                    let mut b = [0u8; 4];
                    let t = c.encode_utf8(&mut b).to_string();
                    self.raw(&t)
                }
            }
        }
        self.raw("\"");
    }
    fn list<T>(&mut self, xs: &[T], mut f: impl FnMut(&mut Self, usize, &T)) {
        self.raw("[");
        self.ws();
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.raw(",");
                self.ws();
            }
            f(self, i, x);
            self.ws();
        }
        self.raw("]");
    }
    /// `fields`: name and rendered value.
    fn object(&mut self, mut fields: Vec<(String, Vec<u8>)>) {
        let n = fields.len();
        for i in (1..n).rev() {
            let j = self.pick() as usize % (i + 1);
            fields.swap(i, j);
        }
        if self.pick() % 4 == 3 {
            let at = self.pick() as usize % (fields.len() + 1);
            let v: &[u8] = match self.pick() % 4 {
                0 => b"null",
                1 => b"{\"key\": [1, {\"tcId\": -2.5e3}], \"msg\": \"}\"}",
                2 => b"\"algorithm\\\"\"",
                _ => b"[[], [true]]",
            };
            fields.insert(at, ("xComment".into(), v.to_vec()));
        }
        self.raw("{");
        self.ws();
        for (i, (k, v)) in fields.iter().enumerate() {
            if i > 0 {
                self.raw(",");
                self.ws();
            }
            self.string(k);
            self.ws();
            self.raw(":");
            self.ws();
            self.out.extend_from_slice(v);
            self.ws();
        }
        self.raw("}");
    }
    fn sub(&mut self, f: impl FnOnce(&mut Self)) -> Vec<u8> {
        let keep = std::mem::take(&mut self.out);
        f(self);
        std::mem::replace(&mut self.out, keep)
    }
    fn inner(&mut self, m: &MInner, fault: Fault, optional_missing: bool) {
        let mut fs = vec![];
        let v = self.sub(|w| w.raw(&m.id.to_string()));
        fs.push(("tcId".to_string(), v));
        let v = self.sub(|w| w.string(&m.key));
        fs.push(("key".to_string(), v));
        let v = self.sub(|w| w.list(&m.flags, |w, _, s| w.string(s)));
        fs.push(("flags".to_string(), v));
        let v = self.sub(|w| w.raw(&m.small.to_string()));
        fs.push(("small".to_string(), v));
        match &m.tag {
            Some(t) => {
                let v = self.sub(|w| w.string(t));
                fs.push(("tag".to_string(), v));
            }
            None if optional_missing => (),
            None => fs.push(("tag".to_string(), b"null".to_vec())),
        }
        match fault {
            // the optional field may be absent, so it is never the missing one
            Fault::Missing(1, f) => {
                fs.remove(f as usize % 4);
            }
            Fault::WrongType(1, f) => {
                let i = f as usize % fs.len();
                let wrong: &[u8] = match fs[i].0.as_str() {
                    "tcId" | "small" => [&b"\"7\""[..], b"1.5", b"null", b"[1]"][f as usize / 8 % 4],
                    "key" => [&b"7"[..], b"null", b"[\"a\"]", b"{}"][f as usize / 8 % 4],
                    "flags" => [&b"\"a\""[..], b"[1]", b"{}", b"null"][f as usize / 8 % 4],
                    _ => [&b"7"[..], b"[]", b"true", b"{}"][f as usize / 8 % 4],
                };
                fs[i].1 = wrong.to_vec();
            }
            Fault::OutOfRange(0, neg) => fs[0].1 = if neg { b"-1".to_vec() } else { b"4294967296".to_vec() },
            Fault::OutOfRange(1, neg) => fs[3].1 = if neg { b"-1".to_vec() } else { b"256".to_vec() },
            Fault::Duplicate(1, f) => {
                let e = fs[f as usize % fs.len()].clone();
                fs.push(e);
            }
            Fault::BadUtf8 => fs[1].1 = b"\"a\xff\"".to_vec(),
            _ => (),
        }
        self.object(fs);
    }
    fn outer(&mut self, m: &MOuter, fault: Fault, om: bool) {
        let mut fs = vec![];
        let v = self.sub(|w| w.string(&m.alg));
        fs.push(("algorithm".to_string(), v));
        fs.push(("numberOfTests".to_string(), m.n.to_string().into_bytes()));
        fs.push(("delta".to_string(), m.delta.to_string().into_bytes()));
        fs.push(("valid".to_string(), m.valid.to_string().into_bytes()));
        let last = m.groups.len().wrapping_sub(1);
        let v = self.sub(|w| {
            w.list(&m.groups, |w, i, g| {
                w.inner(g, if i == last { fault } else { Fault::None }, om)
            })
        });
        fs.push(("testGroups".to_string(), v));
        match fault {
            Fault::Missing(0, f) => {
                fs.remove(f as usize % 5);
            }
            Fault::WrongType(0, f) => {
                let i = f as usize % 5;
                let wrong: &[u8] = match i {
                    0 => [&b"7"[..], b"null", b"[]", b"true"][f as usize / 8 % 4],
                    1 | 2 => [&b"\"7\""[..], b"1.5", b"null", b"true"][f as usize / 8 % 4],
                    3 => [&b"\"true\""[..], b"1", b"null", b"[]"][f as usize / 8 % 4],
                    _ => [&b"{}"[..], b"\"x\"", b"null", b"[3]"][f as usize / 8 % 4],
                };
                fs[i].1 = wrong.to_vec();
            }
            Fault::OutOfRange(2, neg) => {
                fs[1].1 = if neg { b"-1".to_vec() } else { b"18446744073709551616".to_vec() }
            }
            Fault::OutOfRange(3, neg) => {
                fs[2].1 = if neg { b"-9223372036854775809".to_vec() } else { b"9223372036854775808".to_vec() }
            }
            Fault::Duplicate(0, f) => {
                let e = fs[f as usize % 5].clone();
                fs.push(e);
            }
            _ => (),
        }
        self.object(fs);
    }
}

static NEXT: AtomicU64 = AtomicU64::new(0);

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[0-9a-f]{0,24}",
        1 => "\\PC{0,8}",
        1 => "[\"\\\\/{}\\[\\]:,\n\t\r\u{8}\u{c}\u{1}\u{1f}é€𝄞 ]{0,8}",
    ]
}
fn inner() -> impl Strategy<Value = MInner> {
    (
        prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()],
        text(),
        vec(text(), 0..3),
        prop_oneof![Just(0u8), Just(255u8), any::<u8>()],
        proptest::option::of(text()),
    )
        .prop_map(|(id, key, flags, small, tag)| MInner { id, key, flags, small, tag })
}
fn outer() -> impl Strategy<Value = MOuter> {
    (
        text(),
        prop_oneof![Just(0u64), Just(u64::MAX), any::<u64>(), Just(1 << 53), Just((1 << 53) + 1)],
        prop_oneof![Just(i64::MIN), Just(i64::MAX), any::<i64>(), -3i64..3],
        any::<bool>(),
        vec(inner(), 0..4),
    )
        .prop_map(|(alg, n, delta, valid, groups)| MOuter { alg, n, delta, valid, groups })
}
fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        6 => Just(Fault::None),
        1 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Fault::Missing(a, b)),
        1 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Fault::WrongType(a, b)),
        1 => (0u8..4, any::<bool>()).prop_map(|(a, b)| Fault::OutOfRange(a, b)),
        1 => any::<u16>().prop_map(Fault::Truncate),
        1 => any::<u8>().prop_map(Fault::Trailing),
        1 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Fault::Duplicate(a, b)),
        1 => Just(Fault::NoSuchFile),
        1 => Just(Fault::Shape),
        1 => Just(Fault::BadUtf8),
    ]
}

fn same(got: &Outer, want: &MOuter) -> Res {
    eq("algorithm", got.algorithm.clone(), want.alg.clone())?;
    eq("numberOfTests", got.numberOfTests, want.n)?;
    eq("delta", got.delta, want.delta)?;
    eq("valid", got.valid, want.valid)?;
    let g: Vec<MInner> = got
        .testGroups
        .iter()
        .map(|g| MInner { id: g.tcId, key: g.key.clone(), flags: g.flags.clone(), small: g.small, tag: g.tag.clone() })
        .collect();
    eq("testGroups", g, want.groups.clone())
}

fn c30(ctx: &mut Ctx) {
    ctx.rule("the file holds at least one nested record, or carries a fault");
    let dir = std::env::temp_dir().join(format!("vh-vectors-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let scratch = Scratch(dir.clone());
    // A case leaks its path (the API wants a 'static one): names are reused from a small pool.
    let names: Vec<&'static str> = (0..64)
        .map(|i| &*Box::leak(dir.join(format!("v{}.json", i)).to_str().unwrap().to_string().into_boxed_str()))
        .collect();
    let missing: &'static str = Box::leak(dir.join("none.json").to_str().unwrap().to_string().into_boxed_str());
    let locks: Vec<std::sync::Mutex<()>> = (0..64).map(|_| std::sync::Mutex::new(())).collect();

    ctx.run(
        "load",
        40_000,
        400_000,
        || {
            (vec(outer(), 1..4), any::<bool>(), vec(any::<u8>(), 0..24), fault()).prop_map(
                |(mut docs, array, style, fault)| {
                    if !array {
                        docs.truncate(1);
                    }
                    Case { docs, array, style, fault }
                },
            )
        },
        |c: &Case, rec| {
            let slot = (NEXT.fetch_add(1, Ordering::Relaxed) % 64) as usize;
            let _g = locks[slot].lock().unwrap_or_else(|e| e.into_inner());
            let path = names[slot];
            let mut w = W { out: vec![], style: &c.style, pos: 0 };
            let om = w.pick() % 2 == 1;
            w.ws();
            let last = c.docs.len() - 1;
            let as_array = c.array != (c.fault == Fault::Shape);
            if as_array {
                w.list(&c.docs, |w, i, d| w.outer(d, if i == last { c.fault } else { Fault::None }, om));
            } else {
                w.outer(&c.docs[0], c.fault, om);
            }
            let end = w.out.len();
            w.ws();
            let mut body = w.out;
            let has_inner = !c.docs[if as_array { last } else { 0 }].groups.is_empty();
            let mut bad = match c.fault {
                Fault::None => false,
                // these faults sit in the last nested record, when there is one
                Fault::Missing(1, _) | Fault::WrongType(1, _) | Fault::Duplicate(1, _) | Fault::BadUtf8 => has_inner,
                Fault::OutOfRange(k, _) if k < 2 => has_inner,
                _ => true,
            };
            match c.fault {
                Fault::Truncate(f) => {
                    let n = (f as usize * end) >> 16;
                    body.truncate(n);
                }
                Fault::Trailing(k) => {
                    let extra: &[u8] = [&b"{}"[..], b"]", b"x", b",", b"\"", b"0", b"\0", b"}"][k as usize % 8];
                    body.extend_from_slice(extra);
                }
                // serde also reads a record from a list of its values; five fields never match documents
                _ => (),
            }
            if c.fault == Fault::Shape && c.array && !c.docs.is_empty() {
                bad = true;
            }
            std::fs::write(path, &body).expect("write");
            let p = if c.fault == Fault::NoSuchFile { missing } else { path };
            rec.nontrivial(bad || has_inner);
            rec.class(if c.array { "array" } else { "record" });
            rec.class(match c.fault {
                Fault::None => "well-formed".to_string(),
                f => format!("{:?}", f).split('(').next().unwrap().to_string(),
            });
            let got: Result<Vec<Outer>, String> =
                if c.array { caught(|| Outer::new_array(p)) } else { caught(|| vec![Outer::new(p)]) };
            match (bad, got) {
                (true, Ok(v)) => Err(format!("accepted a file with fault {:?}: {:?} from {:?}", c.fault, v, String::from_utf8_lossy(&body))),
                (true, Err(_)) => Ok(()),
                (false, Err(e)) => Err(format!("refused a well-formed file ({}): {:?}", e, String::from_utf8_lossy(&body))),
                (false, Ok(v)) => {
                    eq("number of records", v.len(), c.docs.len())?;
                    for (a, b) in v.iter().zip(&c.docs) {
                        same(a, b)?;
                        same(&a.clone(), b)?;
                    }
                    // what the loader produced can be written and read back
                    let again = serde_json::to_vec(&v).map_err(|e| e.to_string())?;
                    std::fs::write(path, &again).expect("write");
                    let w = no_panic("reading back", || Outer::new_array(path))?;
                    for (a, b) in w.iter().zip(&c.docs) {
                        same(a, b)?;
                    }
                    eq("records read back", w.len(), c.docs.len())
                }
            }
        },
    );

    // long files cross the reader's buffer at every alignment
    ctx.run(
        "large",
        400,
        4_000,
        || (0usize..40_000, 0usize..9000, any::<u8>()),
        |&(n, pad, b): &(usize, usize, u8), rec| {
            let slot = (NEXT.fetch_add(1, Ordering::Relaxed) % 64) as usize;
            let _g = locks[slot].lock().unwrap_or_else(|e| e.into_inner());
            let path = names[slot];
            let msg: String = (0..n).map(|i| char::from_digit((i as u32 * 7 + b as u32) % 16, 16).unwrap()).collect();
            let mut s = " ".repeat(pad);
            s.push_str(&format!("[{{\"msg\":\"{}\"}},{{\"msg\":\"\\u00e9{}\"}}]", msg, b));
            std::fs::write(path, &s).expect("write");
            rec.nontrivial(n + pad > 8192);
            let v = no_panic("new_array", || One::new_array(path))?;
            eq("records", v.len(), 2)?;
            eq("first", v[0].msg.clone(), msg)?;
            eq("second", v[1].msg.clone(), format!("é{}", b))
        },
    );
    // many records, and long strings and lists in one record
    ctx.exhaust(
        "many",
        [(0usize, 0usize), (1, 0), (255, 3), (256, 3), (257, 1), (1_000, 40), (5_000, 0), (66_000, 2), (2, 70_000), (3, 1 << 20), (1, 5 << 20)].into_iter(),
        |&(k, n): &(usize, usize), rec| {
            let slot = (NEXT.fetch_add(1, Ordering::Relaxed) % 64) as usize;
            let _g = locks[slot].lock().unwrap_or_else(|e| e.into_inner());
            let path = names[slot];
            let msg = |i: usize| -> String { format!("{}-{}", i, (0..n).map(|j| char::from_digit((j as u32 * 7 + (j as u32 >> 8) + i as u32) % 16, 16).unwrap()).collect::<String>()) };
            let s = format!("[{}]", (0..k).map(|i| format!("{{\"msg\":\"{}\"}}", msg(i))).collect::<Vec<_>>().join(","));
            std::fs::write(path, &s).expect("write");
            rec.nontrivial(k > 0);
            let v = no_panic("new_array", || One::new_array(path))?;
            eq("records", v.len(), k)?;
            for (i, r) in v.iter().enumerate() {
                ensure(r.msg == msg(i), || format!("record {} of {} differs", i, k))?;
            }
            // the same as one record with a list of that length
            let list: Vec<String> = (0..k).map(msg).collect();
            let body = format!("{{\"tcId\":1,\"key\":\"\",\"small\":2,\"flags\":{}}}", serde_json::to_string(&list).unwrap());
            std::fs::write(path, &body).expect("write");
            let one = no_panic("new", || Inner::new(path))?;
            ensure(one.flags == list && one.tcId == 1 && one.small == 2 && one.tag.is_none(), || format!("a record with a list of {} strings of {} characters differs", k, n))?;
            // cut anywhere near its end, or in the middle, it is refused
            for cut in [1, 2, 3, body.len() / 2] {
                std::fs::write(path, &body[..body.len() - cut]).expect("write");
                must_panic("a truncated file", || Inner::new(path).flags.len())?;
            }
            Ok(())
        },
    );
    drop(scratch);
}

fn main() {
    main_with(&[("C30", c30)])
}
