//! Failure collection, deduplicated by signature.
use std::sync::Mutex;
pub struct Rep { pub fails: Mutex<Vec<(String, String)>>, pub count: std::sync::atomic::AtomicU64 }
pub static REP: Rep = Rep { fails: Mutex::new(vec![]), count: std::sync::atomic::AtomicU64::new(0) };
pub static ON_HANG: Mutex<Option<fn()>> = Mutex::new(None);
pub fn fail(input: String, msg: String) {
    REP.count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut g = REP.fails.lock().unwrap();
    if g.len() < 100000 { g.push((input, msg)); }
}
pub fn abort_hang() -> ! {
    if let Some(f) = *ON_HANG.lock().unwrap() { f(); }
    std::process::exit(1)
}
