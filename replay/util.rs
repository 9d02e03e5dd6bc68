//! Shared support of the native harness: seeded randomness, counting, reporting.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::HashSet;
use std::string::String as S;
use std::format;

struct St { rng: u64, evals: u64, distinct: HashSet<u64>, samples: u32, fails: u32, start: std::time::Instant, budget: f64, thorough: bool, unit: S }
thread_local! { static ST: RefCell<Option<St>> = RefCell::new(None); }

fn with<R>(f: impl FnOnce(&mut St) -> R) -> R { ST.with(|s| f(s.borrow_mut().as_mut().expect("vhu not started"))) }

pub fn start() {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let thorough = std::env::var("VERIF_TIER").ok().as_deref() == Some("thorough");
    ST.with(|s| *s.borrow_mut() = Some(St { rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, evals: 0, distinct: HashSet::new(), samples: 0, fails: 0,
        start: std::time::Instant::now(), budget, thorough, unit: S::new() }));
    if std::env::var("VH_BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
}
pub fn finish() { with(|s| println!("VH-DONE evals={} distinct={}", s.evals, s.distinct.len())); }
pub fn unit(name: &str, f: impl FnOnce() + std::panic::UnwindSafe) {
    with(|s| s.unit = name.to_string());
    if let Err(e) = std::panic::catch_unwind(f) { fail(&format!("unit {name} panicked: {}", panic_msg(&e))); }
}
pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> S {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<S>() { s.clone() } else { "panic".to_string() }
}
/// run real code; a panic becomes Err(message)
pub fn catch<R>(f: impl FnOnce() -> R) -> std::result::Result<R, S> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}
pub fn thorough() -> bool { with(|s| s.thorough) }
/// scale the number of random cases with the tier
pub fn scale(n: u64) -> u64 { if thorough() { n * 8 } else { n } }
pub fn out_of_time() -> bool { with(|s| s.start.elapsed().as_secs_f64() > s.budget) }
pub fn next() -> u64 { with(|s| { s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15); let mut z = s.rng; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }) }
pub fn below(n: u64) -> u64 { if n == 0 { 0 } else { next() % n } }
pub fn range(a: i64, b: i64) -> i64 { a + below((b - a) as u64) as i64 }
pub fn coin() -> bool { next() & 1 == 1 }
pub fn pick<T: Clone>(v: &[T]) -> T { v[below(v.len() as u64) as usize].clone() }
pub fn next128() -> u128 { ((next() as u128) << 64) | next() as u128 }
fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
/// one evaluation of the property; `desc` identifies the case, `ok` says whether it held
pub fn check(ok: bool, desc: impl FnOnce() -> S) {
    let d = desc();
    with(|s| { s.evals += 1; s.distinct.insert(hash(&d)); if s.samples < 12 && (s.evals % 37 == 1) { s.samples += 1; println!("VH-SAMPLE {}", d.replace('\n', " ")); } });
    if !ok { fail(&d); }
}
/// like check, with an expected and an actual value
pub fn eq<T: PartialEq + std::fmt::Debug>(got: T, want: T, desc: impl FnOnce() -> S) {
    let ok = got == want;
    check(ok, || { let d = desc(); if ok { d } else { format!("{d}: got {got:?}, expected {want:?}") } });
}
pub fn fail(d: &str) {
    with(|s| { s.fails += 1; if s.fails <= 40 { println!("VH-FAIL [{}] {}", s.unit, d.replace('\n', " ")); } });
}
pub fn failures() -> u32 { with(|s| s.fails) }
pub fn note(d: &str) { println!("VH-NOTE {}", d.replace('\n', " ")); }
