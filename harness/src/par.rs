//! Parallel map over cases, with panics and hangs turned into violations.
use crate::report::{Meta, Report};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{i}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Run `f` for every item on all cores.
///
/// `label` names a case; a panic inside `f` is reported as a violation of that
/// case, and a case that runs for longer than the hang limit ends the check.
pub fn run_cases<T: Sync>(
    rep: &Report,
    meta: &Meta,
    items: &[T],
    label: impl Fn(&T) -> String + Sync,
    f: impl Fn(&T) + Sync,
) {
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let slots: Vec<Mutex<Option<(Instant, usize)>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let active = AtomicUsize::new(n);
    let hang = Duration::from_secs(hang_limit());
    let slow: Option<f64> = std::env::var("SETT_MC_SLOW").ok().and_then(|s| s.parse().ok());
    std::thread::scope(|s| {
        for w in 0..n {
            let (next, slots, f, label, active, done) = (&next, &slots, &f, &label, &active, &done);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= items.len() || rep.enough() {
                            break;
                        }
                        if let Some(flt) = &rep.filter {
                            if *flt != label(&items[i]) {
                                continue;
                            }
                        }
                        *slots[w].lock().unwrap() = Some((Instant::now(), i));
                        if catch_unwind(AssertUnwindSafe(|| f(&items[i]))).is_err() {
                            let msg = LAST_PANIC.with(|p| p.borrow().clone());
                            let l = label(&items[i]);
                            rep.violation(&l, &l, format!("panic: {msg}"));
                        }
                        let started = slots[w].lock().unwrap().take();
                        if let (Some(limit), Some((t, _))) = (slow, started) {
                            if t.elapsed().as_secs_f64() > limit {
                                eprintln!("slow: {:.1} s {}", t.elapsed().as_secs_f64(), label(&items[i]));
                            }
                        }
                    }
                    if active.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
        // Watchdog
        let (slots, done, label) = (&slots, &done, &label);
        s.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for sl in slots {
                    let v = *sl.lock().unwrap();
                    if let Some((t, i)) = v {
                        if t.elapsed() > hang {
                            let l = label(&items[i]);
                            rep.violation(&l, &l, format!("no result after {} s", hang.as_secs()));
                            std::process::exit(rep.finish(meta));
                        }
                    }
                }
            }
        });
    });
}

pub fn hang_limit() -> u64 {
    std::env::var("SETT_MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(150)
}

/// Call the library, turning a panic into an `Err` with its message
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
