//! C16: sequences loaded from a source.
use engine::*;
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::{generic::GenericSequenceBuilder, BufferStrategy};
use std::cell::RefCell;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone)]
enum Do {
    Finish,
    Refuse(u32),
    Write(usize),
    Fail(usize, u32),
}
#[derive(Debug, Clone, Copy)]
struct How {
    ask: usize,
    /// 0: one item at a time, 1: through the spare cells, 2: write more and take it back, 3: one at a time, the length set at the end
    by: usize,
    pending: usize,
}
trait Item: Clone + 'static {
    fn make(n: u32) -> Self;
    fn id(&self) -> u32;
}
impl Item for u8 {
    fn make(n: u32) -> u8 {
        n as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Item for String {
    fn make(n: u32) -> String {
        format!("{n}")
    }
    fn id(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX)
    }
}
impl Item for (u64, u8) {
    fn make(n: u32) -> (u64, u8) {
        (n as u64, n as u8)
    }
    fn id(&self) -> u32 {
        if self.0 as u8 == self.1 {
            self.0 as u32
        } else {
            u32::MAX
        }
    }
}
impl Item for () {
    fn make(_: u32) {}
    fn id(&self) -> u32 {
        0
    }
}
impl Item for Rc<u32> {
    fn make(n: u32) -> Rc<u32> {
        Rc::new(n)
    }
    fn id(&self) -> u32 {
        **self
    }
}
struct Script<T> {
    steps: Rc<RefCell<Vec<(Do, How)>>>,
    next: u32,
    made: Vec<T>,
}
struct Nap(usize);
impl Future for Nap {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        Poll::Pending
    }
}
struct Boxed<'a, R>(Pin<Box<dyn Future<Output = R> + 'a>>);
impl<'a, R> Future for Boxed<'a, R> {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        self.0.as_mut().poll(cx)
    }
}
fn write<T: Item, W: BufferWriter<Item = T>>(w: &mut W, h: How, items: &[T]) {
    assert!(w.capacity() >= h.ask, "asked for room for {}, got {}", h.ask, w.capacity());
    assert_eq!(w.len(), 0, "a fresh writer is not empty");
    assert!(w.as_slice().is_empty());
    match h.by {
        0 => {
            for i in items {
                w.push_item(i.clone()).map_err(|_| ()).expect("no room");
            }
        }
        1 => {
            let s = w.spare_capacity();
            for (c, i) in s.iter_mut().zip(items) {
                c.write(i.clone());
            }
            unsafe { w.set_len(items.len()) };
        }
        2 => {
            for i in items {
                w.push_item(i.clone()).map_err(|_| ()).expect("no room");
            }
            let mut n = 0;
            while w.len() < w.capacity() && n < 20 {
                w.push_item(T::make(7777)).map_err(|_| ()).expect("no room");
                n += 1;
            }
            w.shrink_to(items.len());
        }
        _ => unsafe {
            let p = w.as_mut_ptr();
            for (k, i) in items.iter().enumerate() {
                p.add(k).write(i.clone());
            }
            w.set_len(items.len());
        },
    }
    assert_eq!(w.len(), items.len());
    assert!(w.as_slice().iter().map(|i| i.id()).eq(items.iter().map(|i| i.id())), "the writer shows other items than were written");
}
impl<T: Item> SequenceSource for Script<T> {
    type Item = T;
    type Error = u32;
    type Next<'a, C>
        = Boxed<'a, C::Result>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = T, Error = u32>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Boxed<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = u32>,
    {
        Boxed(Box::pin(async move {
            let (d, h) = self.steps.borrow_mut().remove(0);
            Nap(h.pending).await;
            match d {
                Do::Finish => control.finish(),
                Do::Refuse(e) => control.cancel(e),
                Do::Write(n) | Do::Fail(n, _) => {
                    let items: Vec<T> = (0..n as u32).map(|k| T::make(self.next + k)).collect();
                    self.made.extend(items.iter().cloned());
                    let mut w = control.request_writer(h.ask);
                    write(&mut w, h, &items);
                    Nap(h.pending).await;
                    match d {
                        Do::Fail(_, e) => w.cancel(e),
                        _ => {
                            self.next += n as u32;
                            w.advance()
                        }
                    }
                }
            }
        }))
    }
}
#[derive(Debug)]
struct Caps(Vec<usize>, RefCell<usize>);
impl BufferStrategy for Caps {
    fn calc_capacity(&self, min: usize) -> usize {
        let mut k = self.1.borrow_mut();
        *k += 1;
        min + self.0[*k % self.0.len()]
    }
}
#[derive(Debug, Clone)]
enum Op {
    Load(Do, How),
    Commit,
    Read,
    Advance(usize),
    Watch,
}
fn go<T: Item>(ops: &[Op], caps: &[usize]) -> R {
    let zst = std::mem::size_of::<T>() == 0;
    let ids = |from: usize, n: usize| -> Vec<u32> { (from..from + n).map(|k| if zst { 0 } else { T::make(1 + k as u32).id() }).collect() };
    let steps = Rc::new(RefCell::new(vec![]));
    let made: Vec<T>;
    {
        let src = Script::<T> { steps: steps.clone(), next: 1, made: vec![] };
        let builder = GenericSequenceBuilder::verif_new(Caps(caps.to_vec(), RefCell::new(0)));
        let (mut buffer, mut loader) = builder.build(src);
        // items readable and not advanced over: readable - consumed; loaded: all that were written
        let (mut loaded, mut readable, mut consumed) = (0usize, 0usize, 0usize);
        let mut cx = Context::from_waker(Waker::noop());
        for (k, op) in ops.iter().enumerate() {
            let bad = |m: String| Err(format!("operation {k}, {op:?}: {m}"));
            let mut watched: Option<Vec<u32>> = None;
            match op {
                Op::Load(d, h) => {
                    steps.borrow_mut().push((d.clone(), *h));
                    let mut it = buffer.segments();
                    let mut first: Vec<u32> = it.next().into_iter().flatten().map(|i| i.id()).collect();
                    let res = {
                        let mut f = Box::pin(loader.load());
                        let mut n = 0;
                        loop {
                            if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                                break r;
                            }
                            n += 1;
                            if n > 50 {
                                return bad("never ready".into());
                            }
                            // while it is pending, nothing new can be read
                            let now: usize = buffer.segments().map(|s| s.len()).sum();
                            if now != readable - consumed {
                                return bad(format!("{now} items can be read while the load is pending, {} before", readable - consumed));
                            }
                        }
                    };
                    // an iterator begun before the load goes on into what it committed
                    first.extend(it.by_ref().flatten().map(|i| i.id()));
                    first.extend(it.flatten().map(|i| i.id()));
                    watched = Some(first);
                    match (d, res) {
                        (Do::Finish, Ok(i)) => {
                            if i.commited() != loaded - readable || i.uncommited() != 0 || i.buffer_capacity() != 0 || !i.is_done() {
                                return bad(format!("reports {} readable, {} held back, done {}; {} were held back", i.commited(), i.uncommited(), i.is_done(), loaded - readable));
                            }
                            readable = loaded;
                        }
                        (Do::Write(n), Ok(i)) => {
                            loaded += n;
                            readable += i.commited();
                            if readable > loaded || i.uncommited() != loaded - readable || i.is_done() || i.buffer_capacity() < i.uncommited() {
                                return bad(format!("reports {} readable, {} held back of room for {}, done {}; {loaded} loaded in all", i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done()));
                            }
                        }
                        (Do::Refuse(e) | Do::Fail(_, e), Err(f)) if *e == f => {}
                        (_, r) => return bad(format!("the load returned {:?}", r.map(|i| i.commited()))),
                    }
                }
                Op::Commit => {
                    loader.force_commit();
                    readable = loaded;
                }
                Op::Read => {}
                Op::Watch => {
                    let mut it = buffer.segments();
                    let mut all: Vec<u32> = it.by_ref().flatten().map(|i| i.id()).collect();
                    loader.force_commit();
                    readable = loaded;
                    all.extend(it.flatten().map(|i| i.id()));
                    watched = Some(all);
                }
                Op::Advance(n) => {
                    let left = buffer.advance((*n).into());
                    let left: usize = left.into();
                    let want = n - (*n).min(readable - consumed);
                    if left != want {
                        return bad(format!("{left} missing, {} could be advanced over", readable - consumed));
                    }
                    consumed += n - left;
                }
            }
            if let Some(w) = watched {
                let want = ids(consumed, readable - consumed);
                if w != want {
                    return bad(format!("an iterator gave {w:?}, not {want:?}"));
                }
            }
            let now: Vec<u32> = buffer.segments().flatten().map(|i| i.id()).collect();
            let want = ids(consumed, readable - consumed);
            if now != want {
                return bad(format!("the sequence shows {now:?}, not {want:?}"));
            }
            // what an iterator says of itself agrees with what it gives
            let all: Vec<Vec<u32>> = std::iter::from_fn({
                let mut it = buffer.segments();
                move || it.next().map(|s| s.iter().map(|i| i.id()).collect())
            })
            .collect();
            let (low, high) = buffer.segments().size_hint();
            if low > all.len() || high.is_some_and(|h| h < all.len()) {
                return bad(format!("{} segments, said to be between {low} and {high:?}", all.len()));
            }
            let given = |s: &[T]| -> Vec<u32> { s.iter().map(|i| i.id()).collect() };
            for k in 0..=all.len() {
                let mut it = buffer.segments();
                if it.nth(k).map(given).as_ref() != all.get(k) || it.map(given).ne(all.iter().skip(k + 1).cloned()) {
                    return bad(format!("segment {k} of {all:?} is not what comes first when {k} are skipped"));
                }
                let mut it = buffer.segments();
                for _ in 0..k {
                    it.next();
                }
                if it.count() != all.len() - k {
                    return bad(format!("not {} segments after {k}", all.len() - k));
                }
            }
            if buffer.segments().last().map(given).as_ref() != all.last() {
                return bad(format!("the last segment is not that of {all:?}"));
            }
        }
        loader.force_commit();
        let now: Vec<u32> = buffer.segments().flatten().map(|i| i.id()).collect();
        let want = ids(consumed, loaded - consumed);
        if now != want {
            return Err(format!("in the end the sequence shows {now:?}, not {want:?}"));
        }
        made = vec![];
        drop(buffer);
    }
    drop(made);
    Ok(())
}
/// no item is dropped twice: the source's own are still there when the sequence is gone
fn drops(ops: &[Op], caps: &[usize]) -> R {
    thread_local! { static LIVE: RefCell<(i64, bool)> = const { RefCell::new((0, false)) }; }
    struct Counted(Box<u32>, u32);
    impl Clone for Counted {
        fn clone(&self) -> Self {
            Counted::make(*self.0)
        }
    }
    impl Item for Counted {
        fn make(n: u32) -> Self {
            LIVE.with(|l| l.borrow_mut().0 += 1);
            Counted(Box::new(n), 0x600d600d)
        }
        fn id(&self) -> u32 {
            *self.0
        }
    }
    impl Drop for Counted {
        fn drop(&mut self) {
            LIVE.with(|l| {
                let mut l = l.borrow_mut();
                l.0 -= 1;
                if self.1 != 0x600d600d || l.0 < 0 {
                    l.1 = true;
                }
            });
            self.1 = 0xdead;
        }
    }
    LIVE.with(|l| *l.borrow_mut() = (0, false));
    go::<Counted>(ops, caps)?;
    let (n, bad) = LIVE.with(|l| *l.borrow());
    if bad || n < 0 {
        return Err("an item was dropped twice".into());
    }
    Ok(())
}
fn generic(rng: &mut Rng, _: Mode) -> R {
    let mut ops = vec![];
    let small = [1, 3, 6][rng.below(3)];
    // now and then a long history
    let long = rng.below(12) == 0;
    for _ in 0..1 + if long { 40 + rng.below(80) } else { rng.below(14) } {
        ops.push(match rng.below(10) {
            0..=4 => {
                let n = rng.few(small);
                let d = match rng.below(8) {
                    0 => Do::Refuse(rng.below(9) as u32),
                    1 => Do::Fail(n, rng.below(9) as u32),
                    2 if rng.below(if long { 40 } else { 3 }) == 0 => Do::Finish,
                    _ => Do::Write(n),
                };
                Op::Load(d, How { ask: n + if rng.below(2) == 0 { 0 } else { rng.upto(5) }, by: rng.below(4), pending: if rng.below(4) == 0 { rng.below(3) } else { 0 } })
            }
            5 => Op::Commit,
            6 => Op::Watch,
            7 if !long || rng.below(2) == 0 => Op::Read,
            7 | 8 if long && rng.below(2) == 0 => Op::Load(Do::Write(1), How { ask: 1, by: 0, pending: 0 }),
            8 => Op::Advance(rng.upto(4)),
            _ if long && rng.below(4) != 0 => Op::Read,
            _ => Op::Advance(rng.upto(if long { 60 } else { 20 })),
        });
    }
    let caps: Vec<usize> = (0..1 + rng.below(3)).map(|_| rng.near(8, 70000).unwrap_or([0, 0, 1, 4, 11][rng.below(5)])).collect();
    let ty = rng.below(5);
    trace(&(&ops, &caps, ty));
    let what = format!("items of type {}, extra capacities {caps:?}, {ops:?}", ["u8", "String", "(u64, u8)", "()", "a counted type"][ty]);
    match ty {
        0 => go::<u8>(&ops, &caps),
        1 => go::<String>(&ops, &caps),
        2 => go::<(u64, u8)>(&ops, &caps),
        3 => go::<()>(&ops, &caps),
        _ => drops(&ops, &caps),
    }
    .map_err(|m| format!("{what}: {m}"))
}
fn main() {
    engine::main(&[fam("C16", "generic", generic)]);
}
