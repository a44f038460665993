// C22: the runner's sequence.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::marker::PhantomData;
use std::sync::Arc;
//@futures
//@pins
//@local task sync mem future
//@mem load wait poll wake_by_ref advance next
//@file pin crates/parcom-internals/src/future/pin_option.rs
//@file opt crates/parcom-internals/src/future/option_future.rs
//@file sc crates/parcom-sequence-core/src/lib.rs
//@file seq crates/parcom-runners/src/default_runner/sequence.rs
//@file adv crates/parcom-runners/src/default_runner/sequence/advance.rs
//@file seg crates/parcom-runners/src/default_runner/sequence/segments.rs
//@erase Iter = BufIter<$0, Self>
verus! {
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
/// What goes on meanwhile. TRUSTED: every `external_body` function of this module looks at shared state at some time
/// during its call; between two of them the source may have done anything. Atomics are sequentially consistent.
pub mod happening { use super::*;
#[verifier::external_body]
pub tracked struct Env(());
impl Env { pub uninterp spec fn now(&self) -> int; }
/// how many items `feed` has been given at the time `t`
pub uninterp spec fn total(feed: int, t: int) -> int;
/// whether `flag` is set at the time `t`
pub uninterp spec fn done(flag: int, t: int) -> bool;
/// how often `signal` has told news at the time `t`
pub uninterp spec fn version(signal: int, t: int) -> int;
/// `w` has been woken
pub uninterp spec fn woken(w: Waker) -> bool;
/// `w` is known to `signal`, and is woken when its version leaves `x` (see C20)
pub uninterp spec fn rings(w: Waker, signal: int, x: int) -> bool;
#[verifier::external_body]
pub struct Waker(());
impl Waker {
    #[verifier::external_body]
    pub fn wake_by_ref(&self, Tracked(m): Tracked<&mut Env>) ensures old(m).now() <= final(m).now(), woken(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Context<'a>(PhantomData<&'a ()>);
impl<'a> Context<'a> {
    pub uninterp spec fn it(&self) -> Waker;
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker) ensures *r == self.it() { unimplemented!() }
}
pub enum Poll<R> { Ready(R), Pending }
impl<R> Poll<R> {
    pub fn map<U, F: FnOnce(R) -> U>(self, f: F) -> (r: Poll<U>)
        requires self matches Poll::Ready(v) ==> f.requires((v,)),
        ensures match self { Poll::Ready(v) => r is Ready && f.ensures((v,), r->Ready_0), Poll::Pending => r is Pending },
    { match self { Poll::Ready(v) => Poll::Ready(f(v)), Poll::Pending => Poll::Pending } }
    pub fn is_ready(&self) -> (r: bool) ensures r == (*self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } }
    pub fn is_pending(&self) -> (r: bool) ensures r == (*self is Pending) { match self { Poll::Ready(_) => false, Poll::Pending => true } }
}
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicBool(());
impl AtomicBool {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: bool) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(m): Tracked<&mut Env>) -> (r: bool)
        ensures old(m).now() <= final(m).now(), if r { done(self.id(), final(m).now()) } else { !done(self.id(), old(m).now()) } { unimplemented!() }
}
/// Notify and Wait, with what `notify.rs` proves of the real ones (`as_runner`)
#[verifier::external_body]
pub struct Notify(());
#[verifier::external_body]
pub struct Wait<'a>(PhantomData<&'a ()>);
impl Notify {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn wait<'b>(&self, Tracked(m): Tracked<&mut Env>) -> (r: Wait<'b>)
        ensures r.signal() == self.id(), old(m).now() <= r.made() <= final(m).now() { unimplemented!() }
}
impl<'a> Wait<'a> {
    pub uninterp spec fn signal(&self) -> int;
    /// when it was made
    pub uninterp spec fn made(&self) -> int;
    /// nothing has been told since
    pub open spec fn quiet(&self, t: int) -> bool { version(self.signal(), t) == version(self.signal(), self.made()) }
}
/// a future between two polls
pub trait Future: Sized {
    type Output;
    spec fn polled(pre: Self, w: Waker, a: int, r: Poll<Self::Output>, b: int, post: Self) -> bool;
    fn poll(&mut self, cx: &mut Context<'_>, Tracked(m): Tracked<&mut Env>) -> (r: Poll<Self::Output>)
        ensures Self::polled(*old(self), old(cx).it(), old(m).now(), r, final(m).now(), *final(self)), final(cx).it() == old(cx).it(), old(m).now() <= final(m).now();
}
impl<'a> Future for Wait<'a> {
    type Output = ();
    open spec fn polled(pre: Self, w: Waker, a: int, r: Poll<()>, b: int, post: Self) -> bool {
        match r {
            Poll::Ready(()) => !pre.quiet(b),
            Poll::Pending => post == pre && pre.quiet(a) && rings(w, pre.signal(), version(pre.signal(), pre.made())),
        }
    }
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut Context<'_>, Tracked(m): Tracked<&mut Env>) -> (r: Poll<()>) { unimplemented!() }
}
pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { let mut v = v; core::mem::swap(d, &mut v); v }
pub fn take<T: Default>(d: &mut T) -> (r: T) ensures r == *old(d), call_ensures(T::default, (), *final(d)) { let v = T::default(); replace(d, v) }
pub use core::mem::swap;
pub fn drop<X>(x: X) {}
}
pub use happening::{Env, total, done, version, woken, rings, Waker, Context, Poll, AtomicBool, Notify, Wait, Future, Ordering};
pub mod task { pub use super::{Context, Poll, Waker}; }
pub mod sync { pub use super::atomic; pub use std::sync::Arc; }
pub mod atomic { pub use super::{AtomicBool, Ordering}; }
pub mod mem { pub use super::happening::{replace, swap, drop, take}; }
pub mod future { pub use super::Future; }
pub mod options { use super::*;
//@take pin enum PinOption
//@take opt struct OptionFuture
/// a pinned future put in the place of another
impl<F: Future> OptionFuture<F> {
    pub fn set(&mut self, v: Self) ensures *final(self) == v { *self = v; }
    pub fn as_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
}
//@memtype
//@impl opt - OptionFuture only=some,none
//@fn some
    ensures res.fut == PinOption::Some($0),
//@fn none
    ensures res.fut == PinOption::<F>::None,
//@end
//@memtype Env
//@impl opt Future OptionFuture
//@inject
    open spec fn polled(pre: Self, w: Waker, a: int, r: Poll<Option<F::Output>>, b: int, post: Self) -> bool {
        match pre.fut {
            PinOption::Some(f) => post.fut is Some && match r {
                Poll::Ready(v) => v is Some && F::polled(f, w, a, Poll::Ready(v->0), b, post.fut->Some_0),
                Poll::Pending => F::polled(f, w, a, Poll::Pending, b, post.fut->Some_0),
            },
            PinOption::None => r == Poll::Ready(None::<F::Output>) && b == a && post == pre,
        }
    }
//@end
}
pub use options::*;
/// The buffer a user gives.
pub mod buffers { use super::*;
/// TRUSTED: stands for `Buffer::Iter`
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct BufIter<'a, B>(PhantomData<&'a ()>, PhantomData<B>);
impl<'a, B> BufIter<'a, B> {
    pub uninterp spec fn feed(&self) -> int;
    /// how many items it has given
    pub uninterp spec fn at(&self) -> int;
}
impl<'a, B: SequenceBuffer> BufIter<'a, B> {
    #[verifier::external_body]
    pub fn next(&mut self, Tracked(m): Tracked<&mut Env>) -> (r: Option<&'a B::Segment>)
        ensures final(self).feed() == old(self).feed(), old(m).now() <= final(m).now(),
            match r {
                Some(s) => old(self).at() <= final(self).at() <= total(old(self).feed(), final(m).now()) && B::holds(old(self).feed(), old(self).at(), final(self).at(), s),
                None => final(self).at() == old(self).at() && total(old(self).feed(), old(m).now()) <= old(self).at(),
            } { unimplemented!() }
}
//@memtype Env
//@trait sc SequenceBuffer
//@inject
    spec fn num(n: Self::Length) -> int;
    /// where its items come from
    spec fn feed(&self) -> int;
    /// how many of them it has consumed
    spec fn consumed(&self) -> int;
    /// `s` is the items from `a` to `b` of `feed`
    spec fn holds(feed: int, a: int, b: int, s: &Self::Segment) -> bool;
//@fn advance
    ensures old(vx_mem).now() <= final(vx_mem).now(), final(self).feed() == old(self).feed(),
        0 <= Self::num(res) <= Self::num($0), final(self).consumed() == old(self).consumed() + Self::num($0) - Self::num(res),
        // it consumes what is there
        Self::num(res) > 0 ==> total(old(self).feed(), old(vx_mem).now()) <= final(self).consumed(),
        final(self).consumed() <= total(old(self).feed(), final(vx_mem).now()),
//@fn segments
    ensures res.feed() == self.feed(), res.at() == self.consumed(),
//@end
pub trait SequenceSource {}
pub trait SequenceLoader {
    type Length;
    type Segment: ?Sized;
}
//@memtype
//@trait sc SequenceBuilder
//@end
/// the lengths are numbers
pub open spec fn lawful<B: SequenceBuffer>() -> bool where B::Length: Default + PartialEq {
    &&& <B::Length as PartialEqSpec>::obeys_eq_spec()
    &&& forall|a: B::Length, b: B::Length| #[trigger] PartialEqSpec::eq_spec(&a, &b) == (B::num(a) == B::num(b))
    &&& forall|z: B::Length| #[trigger] call_ensures(<B::Length as Default>::default, (), z) ==> B::num(z) == 0
}
/// a source: it only adds items, and none once it has said that it is done
pub open spec fn source(feed: int, flag: int) -> bool {
    &&& forall|a: int, b: int| a <= b ==> #[trigger] total(feed, a) <= #[trigger] total(feed, b)
    &&& forall|a: int, b: int| a <= b && #[trigger] done(flag, a) && !#[trigger] done(flag, b) ==> false
    &&& forall|a: int, b: int| a <= b && done(flag, a) ==> #[trigger] total(feed, a) == #[trigger] total(feed, b)
}
/// `goal` items are there at the time `t`, or there will be no more
pub open spec fn enough(feed: int, flag: int, goal: int, t: int) -> bool { goal <= total(feed, t) || done(flag, t) }
/// some time from `c` to `t` there was not enough
pub open spec fn lacked(feed: int, flag: int, goal: int, c: int, t: int) -> bool { exists|l: int| c <= l <= t && !#[trigger] enough(feed, flag, goal, l) }
/// who waits is told of what comes
pub open spec fn waits<'a>(f: OptionFuture<Wait<'a>>, signal: int, feed: int, flag: int, goal: int, t: int) -> bool {
    match f.fut {
        PinOption::None => true,
        PinOption::Some(w) => w.signal() == signal && lacked(feed, flag, goal, w.made(), t),
    }
}
/// there was news since the last poll
pub open spec fn told<'a>(f: OptionFuture<Wait<'a>>, t: int) -> bool { match f.fut { PinOption::None => true, PinOption::Some(w) => !w.quiet(t) } }
/// who polled in vain is woken
pub open spec fn heard<'a>(w: Waker, f: OptionFuture<Wait<'a>>) -> bool {
    woken(w) || (f.fut is Some && rings(w, f.fut->Some_0.signal(), version(f.fut->Some_0.signal(), f.fut->Some_0.made())))
}
}
pub use buffers::*;
pub mod lacking { use super::*;
pub broadcast proof fn lacks(feed: int, flag: int, goal: int, c: int, l: int, t: int)
    requires c <= l <= t, !#[trigger] done(flag, l), total(feed, l) < goal,
    ensures #[trigger] lacked(feed, flag, goal, c, t)
{ assert(!enough(feed, flag, goal, l)); }
pub broadcast proof fn lacks_on(feed: int, flag: int, goal: int, c: int, l: int, t: int)
    requires #[trigger] lacked(feed, flag, goal, c, l), l <= t,
    ensures #[trigger] lacked(feed, flag, goal, c, t)
{ let x = choose|x: int| c <= x <= l && !#[trigger] enough(feed, flag, goal, x); assert(!enough(feed, flag, goal, x)); }
}
pub mod sequences { use super::*;
broadcast use {lacking::lacks, lacking::lacks_on};
//@take seq struct DefaultSequenceInner
//@take seq struct DefaultSequence
//@take adv struct DefaultSequenceAdvance
//@take seg struct DefaultSegments
//@take seg struct DefaultSegmentsNext
impl<S: SequenceSource, B: SequenceBuilder<S>> DefaultSequenceInner<S, B> {
    pub open spec fn feed(&self) -> int { self.buffer.feed() }
    pub open spec fn flag(&self) -> int { self.done_flag.id() }
    pub open spec fn signal(&self) -> int { self.append_signal.id() }
    pub open spec fn same(&self, o: &Self) -> bool { self.feed() == o.feed() && self.flag() == o.flag() && self.signal() == o.signal() && self.loader == o.loader }
}
impl<S: SequenceSource, B: SequenceBuilder<S>> DefaultSequenceAdvance<S, B> {
    pub open spec fn host(&self) -> DefaultSequenceInner<S, B> { *self.sequence->0 }
    /// what is to be consumed in the end
    pub open spec fn goal(&self) -> int { self.host().buffer.consumed() + B::Buffer::num(self.remain) }
    pub open spec fn fit(&self, t: int) -> bool {
        &&& self.sequence is Some && source(self.host().feed(), self.host().flag()) && B::Buffer::num(self.remain) >= 0
        &&& waits(self.fut, self.host().signal(), self.host().feed(), self.host().flag(), self.goal(), t)
    }
    pub open spec fn enough(&self, t: int) -> bool { enough(self.host().feed(), self.host().flag(), self.goal(), t) }
}
//@memtype
//@impl seq - DefaultSequence only=new
//@fn new
    ensures res.inner.buffer == $0, res.inner.loader == $1,
//@end
//@impl adv - DefaultSequenceAdvance only=new
//@fn new
    requires source($0.inner.feed(), $0.inner.flag()), B::Buffer::num($1) >= 0,
    ensures forall|t: int| #[trigger] res.fit(t), res.host() == *$0.inner, res.goal() == $0.inner.buffer.consumed() + B::Buffer::num($1),
//@end
//@memtype Env
//@impl adv Future DefaultSequenceAdvance inherent
//@inject
//@fn poll
    requires old(self).fit(old(vx_mem).now()), lawful::<B::Buffer>(),
    ensures old(vx_mem).now() <= final(vx_mem).now(), final($0).it() == old($0).it(),
        match res {
            Poll::Ready(s) => s.inner.same(&old(self).host()) && (s.inner.buffer.consumed() == old(self).goal()
                || (s.inner.buffer.consumed() <= old(self).goal() && done(s.inner.flag(), final(vx_mem).now()) && s.inner.buffer.consumed() == total(s.inner.feed(), final(vx_mem).now()))),
            Poll::Pending => final(self).fit(final(vx_mem).now()) && final(self).host().same(&old(self).host()) && final(self).goal() == old(self).goal()
                && heard(old($0).it(), final(self).fut) && !(told(old(self).fut, old(vx_mem).now()) && old(self).enough(old(vx_mem).now())),
        },
//@end
impl<'a, S: SequenceSource, B: SequenceBuilder<S>> DefaultSegments<'a, S, B> where B::Buffer: 'a {
    pub open spec fn fit(&self) -> bool { source(self.iter.feed(), self.done_flag.id()) }
    pub open spec fn same(&self, o: &Self) -> bool { self.append_signal == o.append_signal && self.done_flag == o.done_flag && self.iter.feed() == o.iter.feed() }
    pub open spec fn at(&self) -> int { self.iter.at() }
    /// there is another item, or there will be no more
    pub open spec fn enough(&self, t: int) -> bool { enough(self.iter.feed(), self.done_flag.id(), self.at() + 1, t) }
}
impl<'a, 'b, S: SequenceSource, B: SequenceBuilder<S>> DefaultSegmentsNext<'a, 'b, S, B> where B::Segment: 'a {
    pub open spec fn fit(&self, t: int) -> bool {
        self.host.fit() && waits(self.fut, self.host.append_signal.id(), self.host.iter.feed(), self.host.done_flag.id(), self.host.at() + 1, t)
    }
}
//@impl seg - DefaultSegments only=new
//@fn new
    ensures res.append_signal.id() == $0.inner.signal(), res.done_flag.id() == $0.inner.flag(), res.iter.feed() == $0.inner.feed(), res.at() == $0.inner.buffer.consumed(),
//@end
//@impl seg SegmentStream DefaultSegments inherent
//@inject
//@fn next
    requires old(self).fit(),
    ensures forall|t: int| #[trigger] res.fit(t), *res.host == *old(self), *final(res.host) == *final(self),
//@end
//@impl seg Future DefaultSegmentsNext inherent
//@inject
//@fn poll
    requires old(self).fit(old(vx_mem).now()),
    ensures old(vx_mem).now() <= final(vx_mem).now(), final($0).it() == old($0).it(), *final(final(self).host) == *final(old(self).host),
        final(self).host.same(old(self).host), final(self).host.fit(),
        match res {
            Poll::Ready(Some(s)) => old(self).host.at() <= final(self).host.at() && B::Buffer::holds(old(self).host.iter.feed(), old(self).host.at(), final(self).host.at(), s),
            Poll::Ready(None) => final(self).host.at() == old(self).host.at() && done(old(self).host.done_flag.id(), final(vx_mem).now())
                && total(old(self).host.iter.feed(), final(vx_mem).now()) <= old(self).host.at(),
            Poll::Pending => final(self).fit(final(vx_mem).now()) && final(self).host.at() == old(self).host.at()
                && heard(old($0).it(), final(self).fut) && !(told(old(self).fut, old(vx_mem).now()) && old(self).host.enough(old(vx_mem).now())),
        },
//@end
//@impl seq Sequence DefaultSequence inherent
//@inject
//@fn segments
    ensures res.append_signal.id() == old(self).inner.signal(), res.done_flag.id() == old(self).inner.flag(), res.iter.feed() == old(self).inner.feed(), res.at() == old(self).inner.buffer.consumed(),
//@fn advance
    requires source(self.inner.feed(), self.inner.flag()), B::Buffer::num($0) >= 0,
    ensures forall|t: int| #[trigger] res.fit(t), res.host() == *self.inner, res.goal() == self.inner.buffer.consumed() + B::Buffer::num($0),
//@end
}
pub use sequences::*;
/// C22 put together
pub mod theorem { use super::*;
/// the source tells whenever it has appended items or set the flag: once there is enough where there was not, the version has grown or will grow
pub open spec fn tells(feed: int, flag: int, signal: int) -> bool {
    &&& forall|a: int, b: int| a <= b ==> #[trigger] version(signal, a) <= #[trigger] version(signal, b)
    &&& forall|goal: int, l: int, u: int| l <= u && !#[trigger] enough(feed, flag, goal, l) && #[trigger] enough(feed, flag, goal, u) ==> grows(signal, l)
}
pub open spec fn grows(signal: int, l: int) -> bool { exists|v: int| l <= v && #[trigger] version(signal, v) > version(signal, l) }
/// who waits in vain (see `poll`: it is woken, or `rings` when the version leaves that of its waiter) is told once there is enough
pub proof fn never_lost<'a>(f: OptionFuture<Wait<'a>>, signal: int, feed: int, flag: int, goal: int, t: int, u: int)
    requires waits(f, signal, feed, flag, goal, t), f.fut is Some, tells(feed, flag, signal), t <= u, enough(feed, flag, goal, u),
    ensures exists|v: int| f.fut->Some_0.made() <= v && #[trigger] version(signal, v) > version(signal, f.fut->Some_0.made())
{
    let w = f.fut->Some_0;
    let l = choose|l: int| w.made() <= l <= t && !#[trigger] enough(feed, flag, goal, l);
    assert(grows(signal, l));
    let v = choose|v: int| l <= v && #[trigger] version(signal, v) > version(signal, l);
    assert(version(signal, w.made()) <= version(signal, l));
}
/// whoever advances and polls until it is ready has consumed what was asked for, or all there ever is
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
fn advance_all<S: SequenceSource, B: SequenceBuilder<S>>(s: DefaultSequence<S, B>, n: <B::Buffer as SequenceBuffer>::Length, cx: &mut Context<'_>, Tracked(vx_mem): Tracked<&mut Env>) -> (r: DefaultSequence<S, B>)
    where B::Length: Default + PartialEq
    requires source(s.inner.feed(), s.inner.flag()), B::Buffer::num(n) >= 0, lawful::<B::Buffer>(),
    ensures r.inner.same(&*s.inner),
        r.inner.buffer.consumed() == s.inner.buffer.consumed() + B::Buffer::num(n)
            || (r.inner.buffer.consumed() <= s.inner.buffer.consumed() + B::Buffer::num(n) && forall|t: int| final(vx_mem).now() <= t ==> #[trigger] total(s.inner.feed(), t) == r.inner.buffer.consumed()),
{
    let ghost s0 = s;
    let mut f = s.advance(n, Tracked(vx_mem));
    loop
        invariant f.fit(vx_mem.now()), f.host().same(&*s0.inner), f.goal() == s0.inner.buffer.consumed() + B::Buffer::num(n),
    {
        match f.poll(cx, Tracked(vx_mem)) {
            Poll::Ready(r) => { return r; }
            Poll::Pending => {}
        }
    }
}
/// whoever reads segments until there is none has read on from where it was, without a gap, to the end of all there ever is
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
fn read_all<S: SequenceSource, B: SequenceBuilder<S>>(s: &mut DefaultSequence<S, B>, n: <B::Buffer as SequenceBuffer>::Length, cx: &mut Context<'_>, Tracked(vx_mem): Tracked<&mut Env>) -> (r: Ghost<Seq<(int, int)>>)
    where B::Length: Default + PartialEq + Copy
    requires source(old(s).inner.feed(), old(s).inner.flag()),
    ensures chained(r@, old(s).inner.buffer.consumed()), forall|t: int| final(vx_mem).now() <= t ==> #[trigger] total(old(s).inner.feed(), t) <= ends(r@, old(s).inner.buffer.consumed()),
{
    let ghost feed = s.inner.feed();
    let ghost flag = s.inner.flag();
    let ghost c = s.inner.buffer.consumed();
    let mut it = s.segments();
    let ghost mut got: Seq<(int, int)> = Seq::empty();
    loop
        invariant it.fit(), it.iter.feed() == feed, it.done_flag.id() == flag, chained(got, c), it.at() == ends(got, c),
    {
        let ghost a = it.at();
        let mut f = it.next(n, Tracked(vx_mem));
        let ghost back = *final(f.host);
        let mut more = true;
        let ghost mut b = a;
        loop
            invariant_except_break f.fit(vx_mem.now()), f.host.at() == a, f.host.iter.feed() == feed, f.host.done_flag.id() == flag, more, b == a,
            invariant *final(f.host) == back,
            ensures *final(f.host) == back, f.host.fit(), f.host.iter.feed() == feed, f.host.done_flag.id() == flag, f.host.at() == b, a <= b,
                !more ==> b == a && forall|t: int| vx_mem.now() <= t ==> #[trigger] total(feed, t) <= a,
        {
            match f.poll(cx, Tracked(vx_mem)) {
                Poll::Ready(r) => { proof { b = f.host.at(); } more = r.is_some(); break; }
                Poll::Pending => {}
            }
        }
        if !more { return Ghost(got); }
        proof { got = got.push((a, b)); assert(got.drop_last() =~= got.take(got.len() - 1)); }
    }
}
pub open spec fn ends(s: Seq<(int, int)>, c: int) -> int { if s.len() == 0 { c } else { s.last().1 } }
pub open spec fn chained(s: Seq<(int, int)>, c: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= s[i].1 && s[i].0 == (if i == 0 { c } else { s[i - 1].1 })
}
}
}
fn main() {}
