#![allow(unused_imports, dead_code, unused_macros, unused_variables, unused_mut)]
fn refused<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
use hacspec_dev::*; create_test_vectors!(V, a: u8);
fn main(){ let p = std::env::current_dir().unwrap().join("v.json"); std::fs::write(&p, "{\"a\": 3} {\"a\": 4}").unwrap(); let f: &'static str = Box::leak(p.to_str().unwrap().to_string().into_boxed_str());
 assert!(refused(|| V::new(f).a)); }