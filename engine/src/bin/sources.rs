//! C18, C19: sources driven step by step with a receiver that records what it is told.
use engine::*;
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::future::{Future, IntoFuture};
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// what a receiver was told in one step
#[derive(Debug, Clone, PartialEq)]
enum Told<T, E> {
    Finish,
    Refuse(E),
    Write(usize, Vec<T>),
    Fail(usize, E),
}
type Log<T, E> = Rc<RefCell<Vec<Told<T, E>>>>;
struct Rec<T, E> {
    extra: usize,
    log: Log<T, E>,
}
impl<T: Clone, E> SequenceControl for Rec<T, E> {
    type Item = T;
    type Result = u32;
    type Error = E;
    type Writer = RecWriter<T, E>;
    fn request_writer(self, n: usize) -> RecWriter<T, E> {
        let cap = n + self.extra;
        let mut cells: Vec<MaybeUninit<T>> = Vec::with_capacity(cap + 2 * GUARD);
        unsafe {
            (cells.as_mut_ptr() as *mut u8).write_bytes(0x5c, (cap + 2 * GUARD) * std::mem::size_of::<T>());
            cells.set_len(cap + 2 * GUARD);
        }
        RecWriter { cells, cap, len: 0, asked: n, log: self.log }
    }
    fn cancel(self, e: E) -> u32 {
        self.log.borrow_mut().push(Told::Refuse(e));
        self.log.borrow().len() as u32
    }
    fn finish(self) -> u32 {
        self.log.borrow_mut().push(Told::Finish);
        self.log.borrow().len() as u32
    }
}
const GUARD: usize = 4;
struct RecWriter<T, E> {
    cells: Vec<MaybeUninit<T>>,
    cap: usize,
    len: usize,
    asked: usize,
    log: Log<T, E>,
}
impl<T: Clone, E> RecWriter<T, E> {
    fn check(&self) {
        let n = GUARD * std::mem::size_of::<T>();
        let all = self.cells.len() * std::mem::size_of::<T>();
        let p = self.cells.as_ptr() as *const u8;
        assert!((0..n).chain(all - n..all).all(|k| unsafe { *p.add(k) } == 0x5c), "wrote outside of the receiver's buffer");
    }
}
impl<T: Clone, E> BufferWriter for RecWriter<T, E> {
    type Segment = [T];
    type Item = T;
    type Result = u32;
    type Error = E;
    fn capacity(&self) -> usize {
        self.cap
    }
    fn len(&self) -> usize {
        self.len
    }
    fn as_ptr(&self) -> *const T {
        unsafe { self.cells.as_ptr().add(GUARD) as *const T }
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        unsafe { self.cells.as_mut_ptr().add(GUARD) as *mut T }
    }
    unsafe fn set_len(&mut self, n: usize) {
        assert!(n <= self.cap, "length set to {n} of {}", self.cap);
        self.len = n;
    }
    fn advance(self) -> u32 {
        self.check();
        let items = self.as_slice().to_vec();
        self.log.borrow_mut().push(Told::Write(self.asked, items));
        self.log.borrow().len() as u32
    }
    fn cancel(self, e: E) -> u32 {
        self.check();
        self.log.borrow_mut().push(Told::Fail(self.asked, e));
        self.log.borrow().len() as u32
    }
}
/// polls to completion; the number of times it was pending
fn drive<F: Future>(f: F) -> (F::Output, usize) {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for n in 0..10000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return (r, n);
        }
    }
    panic!("never ready");
}

// ---- C18 ----
#[derive(Debug, Clone)]
enum Do {
    Finish,
    Refuse(u32),
    Write(Vec<u8>),
    Fail(Vec<u8>, u32),
}
#[derive(Debug, Clone, Copy)]
struct How {
    ask: usize,
    /// 0: one item at a time, 1: through the spare cells, 2: write more and take it back, 3: through the slice of the written ones
    by: usize,
    pending: usize,
}
struct Script {
    steps: Vec<(Do, How)>,
    at: usize,
}
struct Nap(usize);
impl Future for Nap {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct Boxed<'a, R>(Pin<Box<dyn Future<Output = R> + 'a>>);
impl<'a, R> Future for Boxed<'a, R> {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        self.0.as_mut().poll(cx)
    }
}
fn write<W: BufferWriter<Item = u8>>(w: &mut W, ask: usize, by: usize, items: &[u8]) {
    assert!(w.capacity() >= ask, "asked for room for {ask}, got {}", w.capacity());
    assert_eq!(w.len(), 0, "a fresh writer is not empty");
    assert!(w.as_slice().is_empty());
    match by {
        0 => {
            for (n, i) in items.iter().enumerate() {
                assert_eq!(w.len(), n);
                w.push_item(*i).expect("no room");
            }
        }
        1 => {
            let s = w.spare_capacity();
            for (c, i) in s.iter_mut().zip(items) {
                c.write(*i);
            }
            unsafe { w.set_len(items.len()) };
        }
        2 => {
            for i in items {
                w.push_item(*i).expect("no room");
            }
            while w.len() < w.capacity() {
                w.push_item(0xff).expect("no room");
            }
            assert!(w.push_item(0xff).is_err());
            w.shrink_to(items.len());
        }
        _ => {
            for _ in items {
                w.push_item(0).expect("no room");
            }
            w.as_mut_slice().copy_from_slice(items);
        }
    }
    assert_eq!(w.len(), items.len());
    assert_eq!(w.as_slice(), items, "the writer shows other items than were written");
    assert_eq!(w.as_ptr(), w.as_mut_ptr() as *const u8);
}
impl SequenceSource for Script {
    type Item = u8;
    type Error = u32;
    type Next<'a, C>
        = Boxed<'a, C::Result>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = u8, Error = u32>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Boxed<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = u32>,
    {
        Boxed(Box::pin(async move {
            let (d, h) = self.steps[self.at].clone();
            self.at += 1;
            if h.pending > 0 {
                Nap(h.pending).await;
            }
            match d {
                Do::Finish => control.finish(),
                Do::Refuse(e) => control.cancel(e),
                Do::Write(items) => {
                    let mut w = control.request_writer(h.ask);
                    write(&mut w, h.ask, h.by, &items);
                    Nap(h.pending).await;
                    w.advance()
                }
                Do::Fail(items, e) => {
                    let mut w = control.request_writer(h.ask);
                    write(&mut w, h.ask, h.by, &items);
                    Nap(h.pending).await;
                    w.cancel(e)
                }
            }
        }))
    }
}
/// RFC 3629: whether `b` is the beginning of the encoding of a character; Some(true) if it is all of it
fn char_prefix(b: &[u8]) -> Option<bool> {
    let n = match b[0] {
        0..=0x7f => 1,
        0xc2..=0xdf => 2,
        0xe0..=0xef => 3,
        0xf0..=0xf4 => 4,
        _ => return None,
    };
    if b.len() > n {
        return None;
    }
    for (i, &x) in b.iter().enumerate().skip(1) {
        let (lo, hi) = match (i, b[0]) {
            (1, 0xe0) => (0xa0, 0xbf),
            (1, 0xed) => (0x80, 0x9f),
            (1, 0xf0) => (0x90, 0xbf),
            (1, 0xf4) => (0x80, 0x8f),
            _ => (0x80, 0xbf),
        };
        if x < lo || x > hi {
            return None;
        }
    }
    Some(b.len() == n)
}
/// how much of `b` is whole characters, or that it is no beginning of a text
fn split(b: &[u8]) -> Option<usize> {
    let mut k = 0;
    while k < b.len() {
        let mut n = 1;
        loop {
            match char_prefix(&b[k..k + n]) {
                None => return None,
                Some(true) => break,
                Some(false) if k + n == b.len() => return Some(k),
                Some(false) => n += 1,
            }
        }
        k += n;
    }
    Some(k)
}
fn text(rng: &mut Rng) -> Vec<u8> {
    let cs = ['a', '\u{7f}', '\u{80}', 'Α', '\u{7ff}', '\u{800}', 'あ', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\0'];
    let n = rng.few(6);
    (0..n).map(|_| rng.letter(&cs)).collect::<String>().into_bytes()
}
#[derive(Debug, Clone, PartialEq)]
enum VErr {
    Invalid,
    Inner(u32),
}
fn utf8(rng: &mut Rng, _: Mode) -> R {
    let mut bytes = text(rng);
    // sometimes not a text
    match rng.below(8) {
        0 if !bytes.is_empty() => {
            let k = rng.below(bytes.len());
            bytes[k] = rng.near(3, 255).map(|b| b as u8).unwrap_or([0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0x41, 0x9f, 0xa0, 0x90, 0x8f][rng.below(15)]);
        }
        1 if !bytes.is_empty() => {
            let k = rng.below(bytes.len());
            bytes.remove(k);
        }
        2 => bytes.truncate(rng.below(bytes.len() + 1)),
        _ => {}
    }
    let mut steps = vec![];
    let mut rest = &bytes[..];
    let mut turns = 0;
    loop {
        let n = if rng.below(3) == 0 { rng.below(rest.len() + 1) } else { rng.below(4).min(rest.len()) };
        let d = match rng.below(10) {
            0 => Do::Refuse(rng.below(9) as u32),
            1 => Do::Fail(rest[..n].to_vec(), rng.below(9) as u32),
            _ if rest.is_empty() => Do::Finish,
            _ => Do::Write(rest[..n].to_vec()),
        };
        let need = match &d {
            Do::Write(i) | Do::Fail(i, _) => i.len(),
            _ => 0,
        };
        if let Do::Write(_) = &d {
            rest = &rest[n..];
        }
        let stop = matches!(d, Do::Finish);
        steps.push((d, How { ask: need + rng.upto(3), by: rng.below(4), pending: if rng.below(4) == 0 { rng.below(3) } else { 0 } }));
        turns += 1;
        if stop || turns > 14 && (rest.len() < 40 || turns > 60) {
            break;
        }
    }
    let extra: Vec<usize> = steps.iter().map(|_| rng.upto(4)).collect();
    trace(&(&steps, &extra));
    let what = format!("{steps:?} with extra room {extra:?}");
    let log: Log<u8, Utf8ValidationError<u32>> = Rc::new(RefCell::new(vec![]));
    let mut src = Utf8Validator::new(Script { steps: steps.clone(), at: 0 });
    let mut held: Vec<u8> = vec![];
    for (k, (d, h)) in steps.iter().enumerate() {
        let before = log.borrow().len();
        let (res, naps) = drive(src.next(Rec { extra: extra[k], log: log.clone() }, 0).into_future());
        let log = log.borrow();
        let holding = held.clone();
        let bad = |m: String| Err(format!("{what}: step {k}, holding back {holding:?}: {m}"));
        if log.len() != before + 1 || res as usize != log.len() {
            return bad(format!("the receiver was told {} things and answered {}, the step gave {res}", log.len() - before, log.len()));
        }
        let _ = (naps, h);
        let told = match log.last().unwrap() {
            Told::Finish => Told::Finish,
            Told::Refuse(e) => Told::Refuse(v(e)),
            Told::Write(_, i) => Told::Write(0, i.clone()),
            Told::Fail(_, e) => Told::Fail(0, v(e)),
        };
        let mut over = false;
        let want = match d {
            Do::Finish if held.is_empty() => Told::Finish,
            Do::Finish => {
                over = true;
                Told::Refuse(VErr::Invalid)
            }
            Do::Refuse(e) => Told::Refuse(VErr::Inner(*e)),
            Do::Fail(_, e) => Told::Fail(0, VErr::Inner(*e)),
            Do::Write(i) => {
                let all: Vec<u8> = held.iter().chain(i).copied().collect();
                match split(&all) {
                    None => {
                        over = true;
                        Told::Fail(0, VErr::Invalid)
                    }
                    Some(n) => {
                        held = all[n..].to_vec();
                        Told::Write(0, all[..n].to_vec())
                    }
                }
            }
        };
        if told != want {
            return bad(format!("the receiver was told {told:?}, not {want:?}"));
        }
        if over {
            break;
        }
    }
    Ok(())
}
fn v(e: &Utf8ValidationError<u32>) -> VErr {
    match e {
        Utf8ValidationError::InvalidSequence => VErr::Invalid,
        Utf8ValidationError::Inner(e) => VErr::Inner(*e),
    }
}

// ---- C19 ----
trait It: Clone + Debug + PartialEq {
    fn make(n: u32) -> Self;
}
impl It for u8 {
    fn make(n: u32) -> u8 {
        n as u8
    }
}
impl It for String {
    fn make(n: u32) -> String {
        format!("item {n}")
    }
}
impl It for () {
    fn make(_: u32) {}
}
struct Chunks<T, K> {
    chunks: std::vec::IntoIter<Option<K>>,
    taken: Rc<Cell<usize>>,
    _t: PhantomData<T>,
}
impl<T, K> Iterator for Chunks<T, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.taken.set(self.taken.get() + 1);
        self.chunks.next().flatten()
    }
}
fn iters<T: It, K: AsRef<[T]> + Clone>(rng: &mut Rng, make: fn(Vec<T>) -> K) -> R {
    let mut id = 0;
    let chunks: Vec<Option<Vec<T>>> = (0..rng.few(6).min(200))
        .map(|_| {
            (rng.below(5) > 0).then(|| {
                (0..if rng.below(6) == 0 { rng.few(12) } else { rng.near(20, 5000).unwrap_or([0, 1, 2, 5, 9][rng.below(5)]) })
                    .map(|_| {
                        id += 1;
                        T::make(id)
                    })
                    .collect()
            })
        })
        .collect();
    let extra: Vec<usize> = (0..chunks.len() + 2).map(|_| if rng.below(2) == 0 { 0 } else { rng.upto(4) }).collect();
    let hint = rng.upto(12);
    trace(&(&chunks, &extra, std::mem::size_of::<K>()));
    let what = format!("chunks {chunks:?} with extra room {extra:?}");
    let taken = Rc::new(Cell::new(0));
    let log: Log<T, parcom_core::Never> = Rc::new(RefCell::new(vec![]));
    let mut src = IteratorSource::new(Chunks { chunks: chunks.iter().map(|c| c.clone().map(make)).collect::<Vec<_>>().into_iter(), taken: taken.clone(), _t: PhantomData::<T> });
    for k in 0..chunks.len() + 2 {
        let before = log.borrow().len();
        let (res, _) = drive(src.next(Rec { extra: extra[k], log: log.clone() }, hint).into_future());
        let log = log.borrow();
        let bad = |m: String| Err(format!("{what}: step {k}: {m}"));
        if log.len() != before + 1 || res as usize != log.len() {
            return bad(format!("the receiver was told {} things and answered {}, the step gave {res}", log.len() - before, log.len()));
        }
        if taken.get() != k + 1 {
            return bad(format!("{} chunks were asked of the iterator so far", taken.get()));
        }
        match (chunks.get(k).and_then(|c| c.as_ref()), log.last().unwrap()) {
            (None, Told::Finish) => {}
            (Some(c), Told::Write(n, i)) if c == i && *n >= c.len() => {}
            (c, t) => return bad(format!("the receiver was told {} for the chunk {c:?}", match t {
                Told::Finish => "that it is over".into(),
                Told::Refuse(_) | Told::Fail(..) => "of an error".into(),
                Told::Write(n, i) => format!("{i:?} (room for {n})"),
            })),
        }
    }
    Ok(())
}
fn iterators(rng: &mut Rng, _: Mode) -> R {
    match rng.below(4) {
        0 => iters::<u8, Vec<u8>>(rng, |v| v),
        1 => iters::<String, Vec<String>>(rng, |v| v),
        2 => iters::<(), Vec<()>>(rng, |v| v),
        _ => iters::<u8, Rc<[u8]>>(rng, |v| v.into()),
    }
}
fn main() {
    engine::main(&[fam("C18", "utf8", utf8), fam("C19", "iterators", iterators)]);
}
