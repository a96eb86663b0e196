//! check --property P01 --tier quick --seed 1 --out DIR --findings FILE [--suite NAME --index N] [--progress PATH]
//! Runs the bounded families of one property. Prints one JSON line on the last line of stdout.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use yary_bounded::{par, suites::*, trace::*};

struct Capped;
thread_local! { static USED: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; }
static TRIPPED: AtomicBool = AtomicBool::new(false);
const CAP: isize = 3 << 30;
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let u = USED.try_with(|c| { c.set(c.get() + l.size() as isize); c.get() }).unwrap_or(0);
        if (u > CAP || l.size() > 2 << 30) && par::CUR.try_with(|c| c.get()).unwrap_or(u64::MAX) != u64::MAX && !TRIPPED.swap(true, Relaxed) { memory(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = USED.try_with(|c| c.set(c.get() - l.size() as isize)); 
        // what is freed reads differently from then on: a use after it shows
        if l.size() >= 256 { std::ptr::write_bytes(p, b'~', l.size()); }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Capped = Capped;

#[derive(Clone)]
struct Fail { suite: String, index: u64, input: String, msg: String }
static FAILS: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
static SUITE: Mutex<String> = Mutex::new(String::new());
static DONE: Mutex<Vec<String>> = Mutex::new(Vec::new());
static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static EVAL: AtomicU64 = AtomicU64::new(0);
static NONTRIV: AtomicU64 = AtomicU64::new(0);
static KNOWN_HIT: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn finish() -> ! {
    par::CUR.with(|c| c.set(u64::MAX));
    let f = FAILS.lock().unwrap_or_else(|e| e.into_inner());
    let best = f.iter().min_by_key(|f| (f.input.len(), f.index)).cloned();
    let fail = best.map(|b| format!("{{\"suite\":{},\"index\":{},\"input\":{},\"message\":{}}}", js(&b.suite), b.index, js(&b.input), js(&b.msg.chars().take(1500).collect::<String>()))).unwrap_or("null".into());
    let line = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"suites\":[{}],\"samples\":[{}],\"failing\":{},\"failure\":{},\"known\":[{}]}}",
        EVAL.load(Relaxed), NONTRIV.load(Relaxed), DONE.lock().unwrap_or_else(|e| e.into_inner()).join(","), SAMPLES.lock().unwrap_or_else(|e| e.into_inner()).join(","), f.len(), fail,
        KNOWN_HIT.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    println!("{line}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { extern "C" { fn _exit(c: i32) -> !; } _exit(if f.is_empty() { 0 } else { 1 }) }
}
fn memory() {
    let i = par::CUR.with(|c| c.replace(u64::MAX));
    let suite = SUITE.try_lock().map(|g| g.clone()).unwrap_or_default();
    FAILS.lock().unwrap().push(Fail { suite, index: i, input: format!("case {i}"), msg: "memory use grows without bound".into() });
    finish()
}

fn main() {
    install_hook();
    AFTER.store(3, Relaxed);
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = opt("--property").unwrap();
    let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let limit: u64 = opt("--limit").and_then(|s| s.parse().ok()).unwrap_or(600);
    let known: Vec<String> = opt("--known").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    *par::PROGRESS.lock().unwrap() = opt("--progress");
    let only = opt("--suite");
    let index: Option<u64> = opt("--index").and_then(|s| s.parse().ok());
    let deadline = Instant::now() + Duration::from_secs(limit);
    *yary_bounded::report::ON_HANG.lock().unwrap() = Some(|| finish());
    if a.iter().any(|x| x == "--list") { for s in suites(&prop, tier, seed) { println!("{}", s.name); } return; }
    for s in suites(&prop, tier, seed) {
        if let Some(o) = &only { if *o != s.name { continue; } }
        if par::STOP.load(Relaxed) { break; }
        *SUITE.lock().unwrap() = s.name.clone();
        if let Some(i) = index {
            // one case, with the watchdog
            let r = par::sweep(1, |_| (s.f)(i).0, |_| match (s.f)(i).1 { V::Bad(m) => Some(m), _ => None }, deadline, Duration::from_secs(20), &|inp, m| FAILS.lock().unwrap().push(Fail { suite: s.name.clone(), index: i, input: inp, msg: m }));
            EVAL.fetch_add(r.evaluated, Relaxed);
            continue;
        }
        let t = Instant::now();
        let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let skipped = AtomicU64::new(0);
        let sample: Mutex<Option<String>> = Mutex::new(None);
        let name = s.name.clone();
        let r = par::sweep(s.n, |i| format!("{i}"), |i| {
            let (inp, v) = (s.f)(i);
            match v {
                V::Skip => { skipped.fetch_add(1, Relaxed); }
                V::Ok => {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    inp.hash(&mut h);
                    let h = h.finish();
                    if seen[(h % 64) as usize].lock().unwrap().insert(h) && i == s.n / 2 || i == s.n / 3 { *sample.lock().unwrap() = Some(inp); }
                }
                V::Bad(m) => {
                    if known.iter().any(|k| k.starts_with("known:") && k.contains(&format!("property={prop} ")) && k.contains(&format!("input={}", js(&inp)))) { let mut g = KNOWN_HIT.lock().unwrap(); if !g.contains(&inp) { g.push(inp); } }
                    else {
                        let mut g = FAILS.lock().unwrap();
                        g.push(Fail { suite: name.clone(), index: i, input: inp, msg: m });
                        if g.len() >= 200 { par::STOP.store(true, Relaxed); }
                    }
                }
            }
            None
        }, deadline, Duration::from_secs(20), &|i, m| {
            // only the watchdog reports here
            FAILS.lock().unwrap().push(Fail { suite: name.clone(), index: i.parse().unwrap_or(0), input: format!("case {i}"), msg: m });
        });
        let distinct: u64 = seen.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        EVAL.fetch_add(r.evaluated, Relaxed);
        NONTRIV.fetch_add(distinct, Relaxed);
        if let Some(x) = sample.into_inner().unwrap() { SAMPLES.lock().unwrap().push(format!("{{\"suite\":{},\"input\":{}}}", js(&s.name), js(&x.chars().take(300).collect::<String>()))); }
        DONE.lock().unwrap().push(format!("{{\"name\":{},\"family\":{},\"size\":{},\"evaluated\":{},\"not_applicable\":{},\"distinct\":{},\"exhaustive\":{},\"cut_short\":{},\"s\":{:.2}}}", js(&s.name), js(&s.about), s.n, r.evaluated, skipped.into_inner(), distinct, s.exhaustive, r.skipped_after, t.elapsed().as_secs_f64()));
        if !FAILS.lock().unwrap().is_empty() { break; }
    }
    finish()
}
