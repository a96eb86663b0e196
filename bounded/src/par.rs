//! Parallel exhaustive enumeration with a watchdog (a hang is a failing input too).
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

/// What a worker is doing right now: (sequence number, started at ms, input).
struct Slot { started: AtomicU64, input: Mutex<String> }

/// Set to end every sweep early (a violation was found).
pub static STOP: AtomicBool = AtomicBool::new(false);
thread_local! { pub static CUR: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) }; }
/// Where each worker notes the index it works on (only while looking for a crash).
pub static PROGRESS: Mutex<Option<String>> = Mutex::new(None);

pub struct Run { pub evaluated: u64, pub skipped_after: bool }

/// Calls `f` on every index in 0..n (spread over the workers). `f` returns the failures it found.
/// `render` gives the input text of an index (for the hang report). Stops early at `deadline`.
pub fn sweep<F, R>(n: u64, render: R, f: F, deadline: Instant, hang: Duration, on_fail: &(dyn Fn(String, String) + Sync)) -> Run
where F: Fn(u64) -> Option<String> + Sync, R: Fn(u64) -> String + Sync {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let left = AtomicUsize::new(WORKERS);
    let cut = AtomicBool::new(false);
    let slots: Arc<Vec<Slot>> = Arc::new((0..WORKERS).map(|_| Slot { started: AtomicU64::new(0), input: Mutex::new(String::new()) }).collect());
    const BLOCK: u64 = 64;
    std::thread::scope(|sc| {
        for w in 0..WORKERS {
            let (next, done, left, cut, slots, f, render) = (&next, &done, &left, &cut, slots.clone(), &f, &render);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let prog = PROGRESS.lock().unwrap().as_ref().map(|p| std::fs::File::create(format!("{p}.{w}")).unwrap());
                loop {
                    if STOP.load(Relaxed) { cut.store(true, Relaxed); break; }
                    let a = next.fetch_add(BLOCK, Relaxed);
                    if a >= n { break; }
                    if Instant::now() > deadline { cut.store(true, Relaxed); break; }
                    let b = (a + BLOCK).min(n);
                    for i in a..b {
                        // publish the index; the watchdog renders it if this never returns
                        if let Ok(mut g) = slots[w].input.try_lock() { g.clear(); g.push_str(&i.to_string()); }
                        slots[w].started.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                        CUR.with(|c| c.set(i));
                        if let Some(f) = &prog { use std::os::unix::fs::FileExt; let _ = f.write_all_at(format!("{i:020}").as_bytes(), 0); }
                        if let Some(m) = f(i) { on_fail(render(i), m); }
                    }
                    slots[w].started.store(0, Relaxed);
                    done.fetch_add(b - a, Relaxed);
                }
                slots[w].started.store(0, Relaxed);
                left.fetch_sub(1, Relaxed);
            }).unwrap();
        }
        let (left, slots, render) = (&left, slots.clone(), &render);
        sc.spawn(move || {
            while left.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for s in slots.iter() {
                    let st = s.started.load(Relaxed);
                    if st != 0 && now.saturating_sub(st) > hang.as_millis() as u64 {
                        let i: u64 = s.input.lock().unwrap().parse().unwrap_or(0);
                        on_fail(render(i), format!("HANG: no result after {:?}", hang));
                        crate::report::abort_hang();
                    }
                }
            }
        });
    });
    Run { evaluated: done.load(Relaxed), skipped_after: cut.load(Relaxed) }
}
