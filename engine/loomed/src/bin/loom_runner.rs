//! C22 under loom.
use loom::sync::atomic::{AtomicUsize as LoomUsize, Ordering::*};
use loom::sync::{Condvar, Mutex};
use loom::thread;
use loomed::*;
use parcom_core::{SegmentStream, Sequence};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use std::future::{Future, IntoFuture};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// what the source has appended: the segments are single items
struct Feed {
    items: [u8; 8],
    appended: LoomUsize,
}
#[derive(Debug, Clone, Copy, Default, PartialEq)]
struct Len(usize);
struct Buf(Arc<Feed>, usize);
struct It<'a>(&'a Feed, usize);
impl<'a> Iterator for It<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        if self.0.appended.load(Acquire) <= self.1 {
            return None;
        }
        self.1 += 1;
        Some(&self.0.items[self.1 - 1..self.1])
    }
}
impl SequenceBuffer for Buf {
    type Length = Len;
    type Segment = [u8];
    type Iter<'a> = It<'a>;
    fn advance(&mut self, n: Len) -> Len {
        let k = n.0.min(self.0.appended.load(Acquire) - self.1);
        self.1 += k;
        Len(n.0 - k)
    }
    fn segments(&self) -> It<'_> {
        It(&self.0, self.1)
    }
}
struct NoLoad;
impl SequenceLoader for NoLoad {
    type Length = Len;
    type Segment = [u8];
    type Error = ();
    type Load<'a> = std::future::Ready<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        unreachable!()
    }
}
struct NoSource;
impl SequenceSource for NoSource {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = std::future::Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, _: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = ()>,
    {
        unreachable!()
    }
}
struct Build;
impl SequenceBuilder<NoSource> for Build {
    type Length = Len;
    type Segment = [u8];
    type Buffer = Buf;
    type Loader = NoLoad;
    fn build(&self, _: NoSource) -> (Buf, NoLoad) {
        unreachable!()
    }
}
type Seq = DefaultSequence<NoSource, Build>;

struct Bell(Mutex<bool>, Condvar);
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        *self.0.lock().unwrap() = true;
        self.1.notify_one();
    }
}
/// polls when woken, and at first
fn drive<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let bell = Arc::new(Bell(Mutex::new(false), Condvar::new()));
    let w = Waker::from(bell.clone());
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return r;
        }
        let mut b = bell.0.lock().unwrap();
        while !*b {
            b = bell.1.wait(b).unwrap();
        }
        *b = false;
    }
}

fn threads(rng: &mut Rng, _: Mode) -> R {
    let parts: Vec<usize> = (0..rng.below(3)).map(|_| 1 + rng.below(2)).collect();
    let total: usize = parts.iter().sum();
    let advance = rng.chance(1, 2).then(|| rng.below(total + 2));
    let d = format!(
        "a thread appends {parts:?} items, telling so each time, and ends; the reader {}reads all segments",
        advance.map(|n| format!("advances by {n} and ")).unwrap_or_default()
    );
    trace(&d);
    explore(4, 3, move || {
        let feed = Arc::new(Feed { items: [0, 1, 2, 3, 4, 5, 6, 7], appended: LoomUsize::new(0) });
        let mut seq: Seq = DefaultSequence::new(Buf(feed.clone(), 0), NoLoad);
        let (told, done) = seq.verif_signals();
        let h = {
            let parts = parts.clone();
            thread::spawn(move || {
                for n in parts {
                    feed.appended.fetch_add(n, Release);
                    told.send();
                }
                done.store(true, SeqCst);
                told.send();
            })
        };
        let mut at = 0;
        if let Some(n) = advance {
            seq = drive(seq.advance(Len(n)).into_future());
            at = n.min(total);
        }
        let mut got = vec![];
        {
            let mut s = seq.segments();
            while let Some(x) = drive(s.next(Len(0)).into_future()) {
                got.extend_from_slice(x);
                if got.len() > 8 {
                    break;
                }
            }
        }
        h.join().unwrap();
        if got != (at..total).map(|i| i as u8).collect::<Vec<_>>() {
            return Err(format!("read {got:?}, though items {at} to {total} were appended before the end"));
        }
        Ok(())
    })
    .map_err(|m| format!("{d}: {m}"))
}

fn main() {
    driver::main(&[fam("C22", "loom threads", threads)])
}
