//! The same families of cases as in the engine, with the threads of /repo's code under loom: every interleaving of each
//! case up to a number of preemptions, and what the memory orderings allow to be read.
#[path = "../../src/driver.rs"]
pub mod driver;
pub use driver::*;
use std::sync::{Arc, Mutex};


/// every interleaving of `f`; an error only for what `f` finds, or for threads that wait for each other for ever
pub fn explore(secs: u64, preemptions: usize, f: impl Fn() -> R + Send + Sync + 'static) -> R {
    let found: Arc<Mutex<Option<String>>> = Arc::default();
    let g = found.clone();
    let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let count = n.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut b = loom::model::Builder::new();
        b.preemption_bound = Some(preemptions);
        b.max_duration = Some(std::time::Duration::from_secs(secs));
        b.max_branches = 20_000;
        b.check(move || {
            n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if g.lock().unwrap().is_some() {
                return;
            }
            if let Err(m) = f() {
                *g.lock().unwrap() = Some(m);
                panic!("found");
            }
        });
    }));
    if std::env::var_os("LOOMED_WHY").is_some() {
        eprintln!("{} executions", count.load(std::sync::atomic::Ordering::SeqCst));
    }
    let m = found.lock().unwrap().take();
    if let Some(m) = m {
        return Err(m);
    }
    match r {
        Ok(()) => Ok(()),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("deadlock") {
                return Err("a thread waits for ever".into());
            }
            if std::env::var_os("LOOMED_WHY").is_some() {
                eprintln!("given up: {m}");
            }
            Ok(())
        }
    }
}
