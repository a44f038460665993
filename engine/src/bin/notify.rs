//! C20: notifications; histories of calls one after another, and calls forced to meet.
use engine::*;
use parcom_internals::future::notify::Notify;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

/// a waker that counts, and may wait when it is cloned
struct Bell {
    rung: AtomicUsize,
    gate: Option<Arc<Gate>>,
}
#[derive(Default)]
struct Gate {
    reached: AtomicBool,
    open: Mutex<bool>,
    cv: Condvar,
}
impl Gate {
    fn pass(&self) {
        self.reached.store(true, SeqCst);
        let mut o = self.open.lock().unwrap();
        while !*o {
            o = self.cv.wait(o).unwrap();
        }
    }
    fn release(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
}
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
        let b = &*(p as *const Bell);
        if let Some(g) = &b.gate {
            g.pass();
        }
        Arc::increment_strong_count(p as *const Bell);
        RawWaker::new(p, &VT)
    },
    |p| unsafe {
        (*(p as *const Bell)).rung.fetch_add(1, SeqCst);
        drop(Arc::from_raw(p as *const Bell));
    },
    |p| unsafe {
        (*(p as *const Bell)).rung.fetch_add(1, SeqCst);
    },
    |p| unsafe { drop(Arc::from_raw(p as *const Bell)) },
);
fn bell(gate: Option<Arc<Gate>>) -> (Arc<Bell>, Waker) {
    let b = Arc::new(Bell { rung: AtomicUsize::new(0), gate });
    let w = unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(b.clone()) as *const (), &VT)) };
    (b, w)
}
fn ready<F: Future<Output = ()>>(f: &mut Pin<Box<F>>, w: &Waker) -> bool {
    matches!(f.as_mut().poll(&mut Context::from_waker(w)), Poll::Ready(()))
}

#[derive(Debug, Clone, Copy)]
enum Op {
    Wait,
    Poll(usize),
    Send,
    Drop(usize),
}
fn history(rng: &mut Rng, _: Mode) -> R {
    let n = 2 + rng.few(24).min(1500);
    let many = if rng.chance(1, 2) { 6 } else { 6 + n / 5 };
    let ops: Vec<Op> = (0..n)
        .map(|_| match rng.below(10) {
            0..=2 => Op::Wait,
            3..=6 => Op::Poll(rng.below(many)),
            7..=8 => Op::Send,
            _ => Op::Drop(rng.below(many)),
        })
        .collect();
    trace(&ops);
    let n = Notify::new();
    // (the waiter, notifications when it was made, the waker of its last poll and how many notifications there were then)
    let mut waits = vec![];
    let mut sent = 0usize;
    for (i, op) in ops.iter().enumerate() {
        match *op {
            Op::Wait => waits.push((Box::pin(n.wait()), sent, None::<(Arc<Bell>, usize)>)),
            Op::Poll(k) if k < waits.len() => {
                let (b, w) = bell(None);
                let (f, made, last) = &mut waits[k];
                let got = ready(f, &w);
                if got != (*made < sent) {
                    return Err(format!(
                        "{ops:?}: at step {i} a waiter made after {made} notifications was polled after {sent}, and was {}",
                        if got { "ready" } else { "pending" }
                    ));
                }
                *last = if got { None } else { Some((b, sent)) };
                if got {
                    drop(waits.remove(k));
                }
            }
            Op::Send => {
                n.send();
                sent += 1;
            }
            Op::Drop(k) if k < waits.len() => drop(waits.remove(k)),
            _ => {}
        }
        for (_, made, last) in &waits {
            if let Some((b, at)) = last {
                if *at < sent && b.rung.load(SeqCst) == 0 {
                    return Err(format!("{ops:?}: a waiter made after {made} notifications and polled in vain after {at} was not woken by notification {sent} (step {i})"));
                }
            }
        }
    }
    Ok(())
}

/// many waiters registered at once
fn crowd(rng: &mut Rng, _: Mode) -> R {
    let rounds = 1 + rng.below(3);
    let sizes: Vec<usize> = (0..rounds).map(|_| 1 + rng.few(60).min(1200)).collect();
    let polls = 1 + rng.below(3);
    trace(&(&sizes, polls));
    let n = Notify::new();
    for (r, &k) in sizes.iter().enumerate() {
        let mut waits: Vec<_> = (0..k).map(|_| (Box::pin(n.wait()), vec![])).collect();
        for p in 0..polls {
            for (i, (f, bells)) in waits.iter_mut().enumerate() {
                let (b, w) = bell(None);
                if ready(f, &w) {
                    return Err(format!("{sizes:?}: waiter {i} of round {r} was ready at its poll {p} without a notification"));
                }
                bells.push(b);
            }
        }
        n.send();
        for (i, (f, bells)) in waits.iter_mut().enumerate() {
            if bells.last().unwrap().rung.load(SeqCst) == 0 {
                return Err(format!("{k} waiters were polled {polls} times in vain; the notification did not wake waiter {i} (round {r})"));
            }
            if !ready(f, &bell(None).1) {
                return Err(format!("{k} waiters, {polls} polls each: waiter {i} was pending after the notification (round {r})"));
            }
        }
    }
    Ok(())
}

/// polls and sends that run into each other; where `hold`, all of them find the lock taken
fn race(rng: &mut Rng, _: Mode) -> R {
    let hold = rng.below(4) != 0;
    let polls = 1 + rng.below(3);
    let sends = [1, 1, 1, 0, 2][rng.below(5)];
    let again = rng.below(2) == 0;
    let (gap, spin) = (rng.below(3), rng.below(400));
    let early = if rng.below(2) == 0 { 0 } else { 1 + rng.below(2) };
    trace(&(hold, polls, sends, again, gap, spin / 50, early));
    let what = format!("{polls} waiters polled while {sends} threads notified{}", if hold { ", another poll being half way" } else { "" });
    for _ in 0..3 {
        let (tx, rx) = mpsc::channel::<R>();
        let what = what.clone();
        std::thread::spawn(move || {
            let r = std::panic::catch_unwind(|| meet(hold, polls, sends, again, gap, spin, early)).unwrap_or_else(|_| Err("a call panicked".into()));
            let _ = tx.send(r.map_err(|m| format!("{what}: {m}")));
        });
        match rx.recv_timeout(Duration::from_secs(5)) {
            Ok(r) => r?,
            Err(_) => return Err(format!("{polls} waiters polled while {sends} threads notified: the calls did not come back")),
        }
    }
    Ok(())
}
fn pause(us: usize) {
    let t = Instant::now();
    while t.elapsed() < Duration::from_micros(us as u64) {
        std::hint::spin_loop();
    }
}
fn meet(hold: bool, polls: usize, sends: usize, again: bool, gap: usize, spin: usize, early: usize) -> R {
    let n = Arc::new(Notify::new());
    let gate = Arc::new(Gate::default());
    let started = AtomicUsize::new(0);
    let (started, gate, n) = (&started, &gate, &*n);
    // waiters polled in vain before anything else happens
    let mut before = vec![];
    for _ in 0..early {
        let mut f = Box::pin(n.wait());
        let (b, w) = bell(None);
        if ready(&mut f, &w) {
            return Err("a waiter was ready without a notification".into());
        }
        before.push((f, b));
    }
    let (first, second) = std::thread::scope(|s| {
        let mut pollers = vec![];
        let mut senders = vec![];
        if hold {
            let f = Box::pin(n.wait());
            let g = gate.clone();
            pollers.push(s.spawn(move || poll_it(n, f, Some(g), false)));
            while !gate.reached.load(SeqCst) && !pollers[0].is_finished() {
                std::hint::spin_loop();
            }
        }
        for _ in 0..polls {
            let f = Box::pin(n.wait());
            pollers.push(s.spawn(move || {
                started.fetch_add(1, SeqCst);
                poll_it(n, f, None, again)
            }));
        }
        while started.load(SeqCst) < polls {
            std::hint::spin_loop();
        }
        if gap > 0 {
            pause(gap * 60);
        }
        for _ in 0..sends {
            senders.push(s.spawn(move || {
                started.fetch_add(1, SeqCst);
                n.send()
            }));
        }
        while started.load(SeqCst) < polls + sends {
            std::hint::spin_loop();
        }
        for _ in 0..spin {
            std::hint::spin_loop();
        }
        gate.release();
        for t in senders {
            t.join().unwrap();
        }
        let mut first = vec![];
        let mut second = vec![];
        for t in pollers {
            let (a, b) = t.join().unwrap();
            first.push(a);
            second.extend(b);
        }
        (first, second)
    });
    let mut left = vec![];
    for (f, b) in before {
        if sends > 0 && b.rung.load(SeqCst) == 0 {
            return Err("a waiter that was polled in vain before was not woken".into());
        }
        left.push((f, b));
    }
    for (mut f, pending) in first {
        match pending {
            None if sends == 0 => return Err("a waiter was ready without a notification".into()),
            None => {}
            Some(b) => {
                if sends > 0 && b.rung.load(SeqCst) == 0 {
                    return Err("a waiter made before the notification was polled in vain and never woken".into());
                }
                let (c, w) = bell(None);
                let got = ready(&mut f, &w);
                if got != (sends > 0) {
                    return Err(format!("after {sends} notifications a waiter made before was {}", if got { "ready" } else { "pending" }));
                }
                if !got {
                    // (the later waker counts)
                    drop(b);
                    left.push((f, c));
                }
            }
        }
    }
    left.extend(second);
    n.send();
    if left.iter().any(|(_, b)| b.rung.load(SeqCst) == 0) {
        return Err("a waiter polled in vain before a notification was not woken by it".into());
    }
    Ok(())
}
type Waiting<'a> = Pin<Box<parcom_internals::future::notify::Wait<'a>>>;
type Polled<'a> = (Waiting<'a>, Option<Arc<Bell>>);
/// polls `f`; where it is ready and `again`, a new waiter too
fn poll_it<'a>(n: &'a Notify, mut f: Pin<Box<parcom_internals::future::notify::Wait<'a>>>, gate: Option<Arc<Gate>>, again: bool) -> (Polled<'a>, Vec<(Waiting<'a>, Arc<Bell>)>) {
    let (b, w) = bell(gate);
    if ready(&mut f, &w) {
        let mut more = vec![];
        if again {
            let mut g = Box::pin(n.wait());
            let (c, w) = bell(None);
            if !ready(&mut g, &w) {
                more.push((g, c));
            }
        }
        ((f, None), more)
    } else {
        ((f, Some(b)), vec![])
    }
}
fn main() {
    engine::main(&[fam("C20", "history", history), slow("C20", "crowd", 4, crowd), slow("C20", "race", 20, race)]);
}
