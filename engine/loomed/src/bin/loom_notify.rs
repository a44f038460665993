//! C20 under loom.
use loomed::*;
use parcom_internals::future::notify::{Notify, Wait};
use loom::sync::atomic::{AtomicUsize as LoomUsize, Ordering::*};
use loom::thread;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::AtomicUsize;
use std::sync::Arc;
use std::task::{Context, Wake, Waker};

#[derive(Default)]
struct Bell(AtomicUsize);
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
type Waiting = Pin<Box<Wait<'static>>>;
/// `n` outlives the waiters made here: a case never frees it
fn wait(n: &Arc<Notify>) -> Waiting {
    let n: &'static Notify = unsafe { &*Arc::as_ptr(n) };
    Box::pin(n.wait())
}
/// polls up to `polls` times, with a waker of its own each time if `fresh`; the bell of the last one if it is pending
fn polled(w: &mut Waiting, polls: usize, fresh: bool) -> Option<Arc<Bell>> {
    let mut bell = Arc::new(Bell::default());
    for i in 0..polls {
        if fresh && i > 0 {
            bell = Arc::new(Bell::default());
        }
        if w.as_mut().poll(&mut Context::from_waker(&Waker::from(bell.clone()))).is_ready() {
            return None;
        }
    }
    Some(bell)
}
fn settled(w: &mut Waiting, bell: Option<Arc<Bell>>, what: &str) -> R {
    if let Some(b) = bell {
        if b.0.load(SeqCst) == 0 {
            return Err(format!("{what}: pending, and not woken by the notification sent since"));
        }
        if polled(w, 1, false).is_some() {
            return Err(format!("{what}: pending still when polled again after the notification"));
        }
    }
    Ok(())
}

/// waiters made before anything is sent
fn before(rng: &mut Rng, _: Mode) -> R {
    around(rng, false)
}
/// and a waiter made between two notifications, while the one made before is polled still
fn between(rng: &mut Rng, _: Mode) -> R {
    around(rng, true)
}
fn around(rng: &mut Rng, between: bool) -> R {
    let waiters = 1 + rng.below(2);
    let polls = 1 + rng.below(2);
    let sends = 1 + rng.below(2);
    let senders = if waiters == 1 { 1 + rng.below(2) } else { 1 };
    let fresh = rng.chance(1, 2);
    let (waiters, senders, sends) = if between { (1, 1, 1) } else { (waiters, senders, sends) };
    let d = format!("{waiters} waiters made, each polled up to {polls} times by its thread ({} waker), while {senders} threads notify {sends} times{}", if fresh { "a new" } else { "one" },
        if between { ", and the first then makes a waiter, polls it and notifies again" } else { "" });
    trace(&d);
    explore(3, 3, move || {
        let n = Arc::new(Notify::new());
        let hs: Vec<_> = (0..waiters)
            .map(|_| {
                let mut w = wait(&n);
                thread::spawn(move || {
                    let b = polled(&mut w, polls, fresh);
                    (w, b)
                })
            })
            .collect();
        let other = (senders > 1).then(|| {
            let n = n.clone();
            thread::spawn(move || n.send())
        });
        for _ in 0..sends {
            n.send();
        }
        let mut later = Ok(());
        if between {
            let mut w = wait(&n);
            let b = polled(&mut w, 1, false);
            n.send();
            later = settled(&mut w, b, "a waiter made between two notifications");
        }
        if let Some(o) = other {
            o.join().unwrap();
        }
        later?;
        for (i, h) in hs.into_iter().enumerate() {
            let (mut w, b) = h.join().unwrap();
            settled(&mut w, b, &format!("waiter {i}"))?;
        }
        // one made now has nothing to be told yet
        let mut w = wait(&n);
        let Some(b) = polled(&mut w, 1, false) else { return Err("ready, with nothing sent since it was made".into()) };
        n.send();
        settled(&mut w, Some(b), "a waiter made later")
    })
    .map_err(|m| format!("{d}: {m}"))
}
/// a waiter made by a thread that then sees whether there is news already, and waits if not
fn news(rng: &mut Rng, _: Mode) -> R {
    let polls = 1 + rng.below(2);
    let rounds = 1 + rng.below(2);
    let extra = rng.chance(1, 2);
    let d = format!("one thread posts {rounds} times and notifies each time{}; another makes a waiter, looks, and polls the waiter up to {polls} times if nothing is posted", if extra { ", a third notifies too" } else { "" });
    trace(&d);
    explore(3, 3, move || {
        let n = Arc::new(Notify::new());
        let posted = Arc::new(LoomUsize::new(0));
        let h = {
            let (n, posted) = (n.clone(), posted.clone());
            thread::spawn(move || {
                let mut w = wait(&n);
                if posted.load(Acquire) == rounds {
                    return None;
                }
                let b = polled(&mut w, polls, false)?;
                Some((w, b))
            })
        };
        let o = extra.then(|| {
            let n = n.clone();
            thread::spawn(move || n.send())
        });
        for i in 0..rounds {
            posted.store(i + 1, Release);
            n.send();
        }
        if let Some((mut w, b)) = h.join().unwrap() {
            settled(&mut w, Some(b), "the waiter")?;
        }
        if let Some(o) = o {
            o.join().unwrap();
        }
        Ok(())
    })
    .map_err(|m| format!("{d}: {m}"))
}

fn main() {
    driver::main(&[fam("C20", "loom before", before), fam("C20", "loom between", between), fam("C20", "loom news", news)])
}
