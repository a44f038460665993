//! C22: the runner's sequence, with the source going on at the moments where the reader could notice or miss it.
use engine::*;
use parcom_core::{SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use std::cell::{Cell, RefCell};
use std::future::{Future, IntoFuture};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Debug, Clone, Copy)]
enum Ev {
    Append(usize),
    Tell,
    Done,
}
/// the source's side: what it has appended, and what it will do at the next occasions
struct Feed {
    items: Box<[u8]>,
    segs: RefCell<Vec<(usize, usize)>>,
    appended: Cell<usize>,
    consumed: Cell<usize>,
    done: Cell<bool>,
    told: Cell<bool>,
    /// at which occasion what happens; occasions count up at every call the reader makes of the buffer
    todo: RefCell<Vec<(usize, Ev)>>,
    now: Cell<usize>,
    signals: RefCell<Option<(Arc<Notify>, Arc<AtomicBool>)>>,
    asked: Cell<usize>,
}
thread_local! { static FEED: RefCell<Option<Rc<Feed>>> = const { RefCell::new(None) }; }
impl Feed {
    fn occasion(&self) {
        self.now.set(self.now.get() + 1);
        loop {
            let next = self.todo.borrow().first().copied();
            match next {
                Some((at, e)) if at <= self.now.get() => self.happens(e),
                _ => break,
            }
        }
    }
    /// the source goes on while the reader sleeps
    fn goes_on(&self) -> bool {
        let next = self.todo.borrow().first().copied();
        match next {
            Some((at, e)) => {
                self.now.set(self.now.get().max(at));
                self.happens(e);
                true
            }
            None => false,
        }
    }
    fn happens(&self, e: Ev) {
        self.todo.borrow_mut().remove(0);
        let s = self.signals.borrow();
        let s = s.as_ref().unwrap();
        match e {
            Ev::Append(n) => {
                let a = self.appended.get();
                if n > 0 {
                    self.segs.borrow_mut().push((a, a + n));
                }
                self.appended.set(a + n);
            }
            Ev::Tell => {
                s.0.send();
            }
            Ev::Done => {
                self.done.set(true);
                s.1.store(true, SeqCst);
            }
        }
    }
}
/// a length whose comparison and zero are occasions for the source, too
#[derive(Debug)]
struct Len(usize);
fn occasion() {
    FEED.with(|f| {
        if let Some(f) = &*f.borrow() {
            f.occasion()
        }
    })
}
impl Default for Len {
    fn default() -> Self {
        occasion();
        Len(0)
    }
}
impl PartialEq for Len {
    fn eq(&self, o: &Self) -> bool {
        occasion();
        let r = self.0 == o.0;
        occasion();
        r
    }
}
struct Buf(Rc<Feed>);
struct It<'a>(&'a Feed, usize);
impl<'a> Iterator for It<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        self.0.occasion();
        let segs = self.0.segs.borrow();
        let r = segs.iter().find(|(_, b)| *b > self.1).copied();
        drop(segs);
        let r = r.map(|(a, b)| {
            let a = a.max(self.1);
            self.1 = b;
            &self.0.items[a..b]
        });
        self.0.occasion();
        r
    }
}
impl SequenceBuffer for Buf {
    type Length = Len;
    type Segment = [u8];
    type Iter<'a> = It<'a>;
    fn advance(&mut self, n: Len) -> Len {
        self.0.occasion();
        self.0.asked.set(self.0.asked.get() + 1);
        let c = self.0.consumed.get();
        let k = n.0.min(self.0.appended.get() - c);
        self.0.consumed.set(c + k);
        let left = n.0 - k;
        self.0.occasion();
        Len(left)
    }
    fn segments(&self) -> It<'_> {
        It(&self.0, self.0.consumed.get())
    }
}
struct NoLoad;
impl SequenceLoader for NoLoad {
    type Length = Len;
    type Segment = [u8];
    type Error = ();
    type Load<'a> = std::future::Ready<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        unreachable!()
    }
}
struct NoSource;
impl SequenceSource for NoSource {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = std::future::Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, _: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = ()>,
    {
        unreachable!()
    }
}
struct Build;
impl SequenceBuilder<NoSource> for Build {
    type Length = Len;
    type Segment = [u8];
    type Buffer = Buf;
    type Loader = NoLoad;
    fn build(&self, _: NoSource) -> (Buf, NoLoad) {
        unreachable!()
    }
}
#[derive(Default)]
struct Bell(AtomicUsize);
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
type Seq = DefaultSequence<NoSource, Build>;
/// polls `f` when it was woken (now and then without); the source goes on when there is nothing else to do
fn drive<F: Future>(feed: &Feed, rng: &mut Rng, f: F, what: &str, limit: Option<usize>) -> Result<Option<F::Output>, String> {
    let mut f = Box::pin(f);
    let mut polls = 0;
    loop {
        if limit.is_some_and(|l| polls >= l) {
            return Ok(None);
        }
        let bell = Arc::new(Bell::default());
        let w = Waker::from(bell.clone());
        polls += 1;
        if polls > 4000 {
            return Err(format!("{what}: polled 4000 times in vain"));
        }
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Ok(Some(r));
        }
        let mut idle = 0;
        while bell.0.load(SeqCst) == 0 {
            if rng.chance(1, 6) {
                break;
            }
            if !feed.goes_on() {
                idle += 1;
                if idle > 1 {
                    return Err(format!(
                        "{what}: pending after {polls} polls and never woken, though the source has appended {} items, {} of them consumed, and {}ended",
                        feed.appended.get(),
                        feed.consumed.get(),
                        if feed.done.get() { "" } else { "not " }
                    ));
                }
            }
        }
    }
}
#[derive(Debug, Clone, Copy)]
enum Op {
    Advance(usize),
    /// reads so many segments; drops a read in the middle after so many polls
    Read(usize, Option<usize>),
}
fn sequence(rng: &mut Rng, _: Mode) -> R {
    let parts = rng.below(7);
    let mut todo = vec![];
    let mut at = 0;
    let mut total = 0;
    for _ in 0..parts {
        at += rng.below(9);
        let n = if rng.chance(1, 8) { 0 } else { 1 + rng.few(6) };
        total += n;
        todo.push((at, Ev::Append(n)));
        at += rng.below(3);
        todo.push((at, Ev::Tell));
    }
    at += rng.below(9);
    todo.push((at, Ev::Done));
    at += rng.below(3);
    todo.push((at, Ev::Tell));
    let ops: Vec<Op> = (0..1 + rng.below(4))
        .map(|_| {
            if rng.chance(1, 2) {
                Op::Advance(if rng.chance(1, 6) { total + rng.below(3) } else { rng.upto(total + 2) })
            } else {
                Op::Read(1 + rng.below(4), if rng.chance(1, 3) { Some(1 + rng.below(2)) } else { None })
            }
        })
        .collect();
    trace(&(&todo, &ops));
    let script = todo.clone();
    let feed = Rc::new(Feed {
        items: (0..total).map(|i| i as u8).collect(),
        segs: RefCell::new(vec![]),
        appended: Cell::new(0),
        consumed: Cell::new(0),
        done: Cell::new(false),
        told: Cell::new(false),
        todo: RefCell::new(todo),
        now: Cell::new(0),
        signals: RefCell::new(None),
        asked: Cell::new(0),
    });
    let mut seq: Seq = DefaultSequence::new(Buf(feed.clone()), NoLoad);
    *feed.signals.borrow_mut() = Some(seq.verif_signals());
    FEED.with(|f| *f.borrow_mut() = Some(feed.clone()));
    let r = body(rng, &feed, seq, &ops, total);
    FEED.with(|f| *f.borrow_mut() = None);
    r.map_err(|m| format!("the source: {script:?} (at which occasion, what); the reader: {ops:?}: {m}"))
}
fn body(rng: &mut Rng, feed: &Feed, mut seq: Seq, ops: &[Op], total: usize) -> R {
    for (i, op) in ops.iter().chain([&Op::Read(usize::MAX, None)]).enumerate() {
        match *op {
            Op::Advance(n) => {
                let before = feed.consumed.get();
                let f = seq.advance(Len(n)).into_future();
                seq = drive(feed, rng, f, &format!("advance by {n} (step {i})"), None)?.unwrap();
                let got = feed.consumed.get() - before;
                if got != n && !feed.done.get() {
                    return Err(format!("advance by {n} (step {i}) was ready when {got} items were consumed and the source had not ended"));
                }
                let want = n.min(total - before);
                if got != want {
                    return Err(format!("advance by {n} (step {i}) consumed {got} items where {} were left in all", total - before));
                }
            }
            Op::Read(n, cut) => {
                let mut at = feed.consumed.get();
                let mut it = seq.segments();
                let mut k = 0;
                while k < n {
                    let limit = if cut.is_some() && rng.chance(1, 2) { cut } else { None };
                    let f = it.next(Len(rng.upto(3)));
                    match drive(feed, rng, f, &format!("segment {k} (step {i})"), limit)? {
                        None => continue,
                        Some(None) => {
                            if at != total || !feed.done.get() {
                                return Err(format!("the segments end (step {i}) at item {at} of {total}, when the source had {}ended", if feed.done.get() { "" } else { "not " }));
                            }
                            // it stays so
                            if rng.chance(1, 2) {
                                break;
                            }
                        }
                        Some(Some(s)) => {
                            if s.is_empty() || at + s.len() > total || *s != feed.items[at..at + s.len()] {
                                return Err(format!("segment {k} (step {i}) is {s:?}, at item {at} of {total}"));
                            }
                            at += s.len();
                        }
                    }
                    k += 1;
                    if n > 100 && k > 100 {
                        return Err("no end".into());
                    }
                }
            }
        }
    }
    Ok(())
}
fn main() {
    engine::main(&[fam("C22", "sequence", sequence)]);
}
