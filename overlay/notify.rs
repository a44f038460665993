// C20: notifications.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
//@futures
//@for
//@local task sync mem
//@mem load fetch_add lock insert remove try_remove drain wake wake_by_ref send wait Self::poll
//@file n crates/parcom-internals/src/future/notify.rs
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
//@include memfns.inc
pub fn vx_assert(b: bool) requires b {}
/// What happens to one notification, by whom, in the one order in which it happens. TRUSTED: every `external_body`
/// function of this module is an operation on shared state, before which others (any number of other calls, of which nothing
/// is known) may have had any effects. Atomics are sequentially consistent.
pub mod happening { use super::*;
#[verifier::external_body]
pub struct Waker(());
impl Clone for Waker { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub ghost enum Ev {
    /// the version grows
    Inc(int),
    Put(int, Waker),
    Remove(int),
    Drain,
    Wake(Waker),
}
pub type Log = Seq<(int, Ev)>;
/// the registered wakers after `log`
pub open spec fn slab(log: Log) -> Map<int, Waker> decreases log.len() {
    if log.len() == 0 { Map::empty() } else {
        let s = slab(log.drop_last());
        match log.last().1 {
            Ev::Put(k, w) => s.insert(k, w),
            Ev::Remove(k) => s.remove(k),
            Ev::Drain => Map::empty(),
            _ => s,
        }
    }
}
/// the version after `log`, which started as `v`
pub open spec fn version(v: int, log: Log) -> int decreases log.len() {
    if log.len() == 0 { v } else {
        let s = version(v, log.drop_last());
        match log.last().1 { Ev::Inc(n) => s + n, _ => s }
    }
}
/// the part of one call in the order of things
#[verifier::external_body]
pub tracked struct Env(());
impl Env {
    /// what has happened so far
    pub uninterp spec fn view(&self) -> Log;
    /// the call
    pub uninterp spec fn me(&self) -> int;
    /// of which notification this is about: its version, its wakers
    pub uninterp spec fn at(&self) -> (int, int);
}
/// others may have done something
pub open spec fn others(me: int, a: Log, b: Log) -> bool {
    &&& a.len() <= b.len() && a == b.take(a.len() as int)
    &&& forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).0 != me && (b[i].1 matches Ev::Inc(n) ==> n > 0)
}
/// others may have done something, then the call did `e`
pub open spec fn did(me: int, a: Log, b: Log, e: Ev) -> bool { b.len() > 0 && b.last() == (me, e) && others(me, a, b.drop_last()) }
/// nobody but perhaps the last changed the registered wakers since there were `n` events
pub open spec fn quiet(n: int, b: Log) -> bool { 0 <= n < b.len() && forall|i: int| n <= i < b.len() - 1 ==> !touches_any(#[trigger] b[i].1) }
pub open spec fn touches_any(e: Ev) -> bool { match e { Ev::Put(_, _) => true, Ev::Remove(_) => true, Ev::Drain => true, _ => false } }
pub open spec fn all_of(s: Map<int, Waker>, r: Seq<Waker>) -> bool { forall|k: int| #[trigger] s.contains_key(k) ==> r.contains(s[k]) }
pub mod atomic { use super::*;
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicUsize(());
impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn initial(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: usize) -> (r: Self) ensures r.initial() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(m): Tracked<&mut Env>) -> (r: usize)
        requires old(m).at().0 == self.id(),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), others(old(m).me(), old(m)@, final(m)@), r == version(self.initial(), final(m)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering, Tracked(m): Tracked<&mut Env>) -> (r: usize)
        requires old(m).at().0 == self.id(),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), did(old(m).me(), old(m)@, final(m)@, Ev::Inc(n as int)), r == version(self.initial(), final(m)@.drop_last()) { unimplemented!() }
}
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T>(PhantomData<T>);
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Slab<T>(PhantomData<T>);
impl<T> Slab<T> {
    pub uninterp spec fn view(&self) -> Map<int, Waker>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<int, Waker>::empty() { unimplemented!() }
}
/// the lock is held
#[verifier::external_body]
pub struct Guard<'a>(&'a ());
pub struct Locked<'a>(pub Guard<'a>);
impl<'a> Locked<'a> {
    pub fn unwrap(self) -> (r: Guard<'a>) ensures r == self.0 { self.0 }
    pub fn expect(self, m: &str) -> (r: Guard<'a>) ensures r == self.0 { self.0 }
}
impl Mutex<Slab<Waker>> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn initial(&self) -> Map<int, Waker>;
    #[verifier::external_body]
    pub fn new(v: Slab<Waker>) -> (r: Self) ensures r.initial() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self, Tracked(m): Tracked<&mut Env>) -> (r: Locked<'_>)
        requires old(m).at().1 == self.id(), self.initial() == Map::<int, Waker>::empty(),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), others(old(m).me(), old(m)@, final(m)@),
            r.0@ == slab(final(m)@), r.0.since() == final(m)@.len(), r.0.id() == self.id() { unimplemented!() }
}
impl<'a> Guard<'a> {
    /// the registered wakers: as long as the lock is held, nobody else changes these
    pub uninterp spec fn view(&self) -> Map<int, Waker>;
    /// up to when it is known what happened
    pub uninterp spec fn since(&self) -> int;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn insert(&mut self, w: Waker, Tracked(m): Tracked<&mut Env>) -> (k: usize)
        requires old(m).at().1 == old(self).id(),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), did(old(m).me(), old(m)@, final(m)@, Ev::Put(k as int, w)),
            slab(final(m)@.drop_last()) == old(self)@, quiet(old(self).since(), final(m)@),
            !old(self)@.contains_key(k as int), final(self)@ == old(self)@.insert(k as int, w), final(self).since() == final(m)@.len(), final(self).id() == old(self).id() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: usize, Tracked(m): Tracked<&mut Env>) -> (r: Waker)
        requires old(m).at().1 == old(self).id(), old(self)@.contains_key(k as int),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), did(old(m).me(), old(m)@, final(m)@, Ev::Remove(k as int)),
            slab(final(m)@.drop_last()) == old(self)@, quiet(old(self).since(), final(m)@),
            r == old(self)@[k as int], final(self)@ == old(self)@.remove(k as int), final(self).since() == final(m)@.len(), final(self).id() == old(self).id() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_remove(&mut self, k: usize, Tracked(m): Tracked<&mut Env>) -> (r: Option<Waker>)
        requires old(m).at().1 == old(self).id(),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), final(self).id() == old(self).id(), final(self).since() == final(m)@.len(),
            if old(self)@.contains_key(k as int) {
                &&& did(old(m).me(), old(m)@, final(m)@, Ev::Remove(k as int)) && slab(final(m)@.drop_last()) == old(self)@ && quiet(old(self).since(), final(m)@)
                &&& r == Some(old(self)@[k as int]) && final(self)@ == old(self)@.remove(k as int)
            } else { *final(m) == *old(m) && final(self)@ == old(self)@ && r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: usize) -> (r: bool) ensures r == self@.contains_key(k as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r ==> forall|k: int| !#[trigger] self@.contains_key(k), r ==> self@ == Map::<int, Waker>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self, Tracked(m): Tracked<&mut Env>) -> (r: Wakers)
        requires old(m).at().1 == old(self).id(),
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), did(old(m).me(), old(m)@, final(m)@, Ev::Drain),
            slab(final(m)@.drop_last()) == old(self)@, quiet(old(self).since(), final(m)@),
            final(self)@ == Map::<int, Waker>::empty(), all_of(old(self)@, r.rest()), final(self).since() == final(m)@.len(), final(self).id() == old(self).id() { unimplemented!() }
}
/// wakers taken out
#[verifier::external_body]
pub struct Wakers(());
impl Wakers {
    pub uninterp spec fn rest(&self) -> Seq<Waker>;
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<Waker>)
        ensures match r {
            Some(w) => old(self).rest().len() > 0 && w == old(self).rest().first() && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest() == Seq::<Waker>::empty() && final(self).rest() == Seq::<Waker>::empty(),
        } { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<Waker>)
        ensures match r {
            Some(w) => old(self).rest().len() > 0 && w == old(self).rest().first() && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest() == Seq::<Waker>::empty() && final(self).rest() == Seq::<Waker>::empty(),
        } { self.vx_next() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn collect(self) -> (r: Vec<Waker>) ensures r.0 == self { Vec(self, PhantomData) }
}
/// wakers taken out and kept
#[verifier::reject_recursive_types(W)]
pub struct Vec<W>(pub Wakers, pub PhantomData<W>);
impl Vec<Waker> {
    pub fn vx_into_iter(self) -> (r: Wakers) ensures r == self.0 { self.0 }
    pub fn into_iter(self) -> (r: Wakers) ensures r == self.0 { self.0 }
}
impl Waker {
    #[verifier::external_body]
    pub fn wake(self, Tracked(m): Tracked<&mut Env>)
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), did(old(m).me(), old(m)@, final(m)@, Ev::Wake(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self, Tracked(m): Tracked<&mut Env>)
        ensures final(m).at() == old(m).at(), final(m).me() == old(m).me(), did(old(m).me(), old(m)@, final(m)@, Ev::Wake(*self)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Context<'a>(PhantomData<&'a ()>);
impl<'a> Context<'a> {
    pub uninterp spec fn it(&self) -> Waker;
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker) ensures *r == self.it() { unimplemented!() }
}
pub enum Poll<R> { Ready(R), Pending }
pub fn drop<X>(x: X) {}
}
pub use happening::*;
pub use atomic::{AtomicUsize, Ordering};
pub mod task { pub use super::{Context, Poll, Waker}; }
pub mod sync { pub use super::atomic; pub use super::Mutex; }
pub mod mem { pub use super::drop; }
pub mod notifying { use super::*;
//@take n struct Notify
//@take n struct Wait
/// what the call does is fair: whoever drains wakes all it took (or has yet to, `rest`); whoever removes a waker has put
/// it there; a new waker takes the place of no other; the version only grows
pub open spec fn fair(me: int, d: int, log: Log, rest: Seq<Waker>) -> bool {
    match log[d].1 {
        Ev::Inc(n) => n > 0,
        Ev::Put(k, _) => !slab(log.take(d)).contains_key(k),
        Ev::Remove(k) => own(me, d, k, log),
        Ev::Drain => forall|k: int| #[trigger] slab(log.take(d)).contains_key(k) ==> wakes(me, d, slab(log.take(d))[k], log) || rest.contains(slab(log.take(d))[k]),
        Ev::Wake(_) => true,
    }
}
/// `b` goes on from `a`
#[verifier::opaque]
pub open spec fn onto(a: Log, b: Log) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
#[verifier::opaque]
pub open spec fn behaves(me: int, from: int, log: Log, rest: Seq<Waker>) -> bool {
    0 <= from <= log.len() && forall|d: int| from <= d < log.len() && (#[trigger] log[d]).0 == me ==> fair(me, d, log, rest)
}
pub open spec fn wakes(me: int, d: int, w: Waker, log: Log) -> bool { exists|j: int| d < j < log.len() && #[trigger] log[j] == (me, Ev::Wake(w)) }
/// the waker at `k`, removed at `d`, was put there by `me`, nobody having touched it since
pub open spec fn own(me: int, d: int, k: int, log: Log) -> bool {
    exists|p: int| #![trigger log[p]] 0 <= p < d && log[p].0 == me && log[p].1 is Put && log[p].1->Put_0 == k && forall|i: int| p < i < d ==> !touches(#[trigger] log[i].1, k)
}
pub open spec fn touches(e: Ev, k: int) -> bool { match e { Ev::Put(j, _) => j == k, Ev::Remove(j) => j == k, Ev::Drain => true, _ => false } }
/// `me` has told that there is news
#[verifier::opaque]
pub open spec fn told(me: int, from: int, log: Log) -> bool { exists|i: int| #![trigger log[i]] 0 <= from <= i < log.len() && log[i].0 == me && log[i].1 is Inc }
/// `me` has told that there is news and taken out the wakers since
#[verifier::opaque]
pub open spec fn sent(me: int, from: int, log: Log) -> bool {
    exists|i: int, d: int| #![trigger log[i], log[d]] 0 <= from <= i < d < log.len() && log[i].0 == me && log[i].1 is Inc && log[d] == (me, Ev::Drain)
}
/// the version was `x` some time since
#[verifier::opaque]
pub open spec fn seen(from: int, log: Log, v: int, x: int) -> bool { exists|c: int| #![trigger log.take(c)] 0 <= from <= c <= log.len() && version(v, log.take(c)) == x }
pub open spec fn put(me: int, p: int, k: int, w: Waker, log: Log) -> bool {
    0 <= p < log.len() && log[p] == (me, Ev::Put(k, w)) && forall|i: int| p < i < log.len() && (#[trigger] log[i]).0 == me ==> !touches(log[i].1, k)
}
/// `me` has registered `w`
#[verifier::opaque]
pub open spec fn registered(me: int, from: int, log: Log, w: Waker) -> bool { exists|p: int, k: int| 0 <= from <= p && #[trigger] put(me, p, k, w, log) }
pub open spec fn pend_at(me: int, from: int, log: Log, v: int, x: int, w: Waker, p: int, k: int, c: int) -> bool {
    &&& 0 <= from <= p && from <= c <= log.len() && put(me, p, k, w, log) && version(v, log.take(c)) == x
    &&& c > p || forall|i: int| c <= i < p ==> !touches_any(#[trigger] log[i].1)
}
/// `me` has registered `w`, and the version has been `x` after that, or before that and nobody touched the wakers in between
#[verifier::opaque]
pub open spec fn pending(me: int, from: int, log: Log, v: int, x: int, w: Waker) -> bool {
    exists|p: int, k: int, c: int| #[trigger] pend_at(me, from, log, v, x, w, p, k, c)
}
}
pub mod going { use super::*;
pub proof fn takes(a: Log, b: Log, d: int)
    requires a.len() <= b.len(), a == b.take(a.len() as int), 0 <= d <= a.len(),
    ensures a.take(d) == b.take(d), d < a.len() ==> a[d] == b[d]
{ assert(a.take(d) =~= b.take(d)); }
/// the version only grows
pub proof fn grows(v: int, a: Log, b: Log)
    requires a.len() <= b.len(), a == b.take(a.len() as int), forall|i: int| a.len() <= i < b.len() ==> ((#[trigger] b[i]).1 matches Ev::Inc(n) ==> n > 0),
    ensures version(v, a) <= version(v, b)
    decreases b.len()
{
    if a.len() < b.len() {
        let c = b.drop_last();
        assert(a =~= c.take(a.len() as int));
        assert forall|i: int| a.len() <= i < c.len() implies ((#[trigger] c[i]).1 matches Ev::Inc(n) ==> n > 0) by { assert(c[i] == b[i]); }
        grows(v, a, c);
        assert(b.last() == b[b.len() - 1]);
    } else { assert(a =~= b); }
}
pub proof fn onto_on(a: Log, b: Log)
    requires a.len() <= b.len(), a == b.take(a.len() as int),
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b)
{
    reveal(onto);
    assert forall|x: Log| #[trigger] onto(x, a) implies onto(x, b) by { assert(b.take(x.len() as int) =~= a.take(x.len() as int)); }
}
pub proof fn fair_on(me: int, d: int, a: Log, b: Log, ra: Seq<Waker>, rb: Seq<Waker>)
    requires a.len() <= b.len(), a == b.take(a.len() as int), 0 <= d < a.len(), fair(me, d, a, ra),
        forall|w: Waker| #[trigger] ra.contains(w) ==> rb.contains(w) || wakes(me, d, w, b),
    ensures fair(me, d, b, rb)
{
    takes(a, b, d);
    match a[d].1 {
        Ev::Drain => {
            assert forall|k: int| #[trigger] slab(b.take(d)).contains_key(k) implies wakes(me, d, slab(b.take(d))[k], b) || rb.contains(slab(b.take(d))[k]) by {
                let w = slab(a.take(d))[k];
                if wakes(me, d, w, a) {
                    let j = choose|j: int| d < j < a.len() && #[trigger] a[j] == (me, Ev::Wake(w));
                    assert(b[j] == a[j]);
                } else { assert(ra.contains(w)); }
            }
        },
        Ev::Remove(k) => {
            let p = choose|p: int| #![trigger a[p]] 0 <= p < d && a[p].0 == me && a[p].1 is Put && a[p].1->Put_0 == k && forall|i: int| p < i < d ==> !touches(#[trigger] a[i].1, k);
            assert(b[p] == a[p]);
            assert forall|i: int| p < i < d implies !touches(#[trigger] b[i].1, k) by { assert(b[i] == a[i]); }
        },
        _ => {},
    }
}
pub proof fn behaves_on(me: int, from: int, a: Log, b: Log, ra: Seq<Waker>, rb: Seq<Waker>)
    requires behaves(me, from, a, ra), a.len() <= b.len(), a == b.take(a.len() as int),
        forall|d: int, w: Waker| #![trigger wakes(me, d, w, b)] 0 <= d < a.len() && ra.contains(w) ==> rb.contains(w) || wakes(me, d, w, b),
        forall|d: int| a.len() <= d < b.len() && (#[trigger] b[d]).0 == me ==> fair(me, d, b, rb),
    ensures behaves(me, from, b, rb)
{
    reveal(behaves);
    assert forall|d: int| from <= d < b.len() && (#[trigger] b[d]).0 == me implies fair(me, d, b, rb) by {
        if d < a.len() {
            takes(a, b, d);
            assert forall|w: Waker| #[trigger] ra.contains(w) implies rb.contains(w) || wakes(me, d, w, b) by { let _ = wakes(me, d, w, b); }
            fair_on(me, d, a, b, ra, rb);
        }
    }
}
/// what is known goes on being known
pub proof fn known_on(me: int, a: Log, b: Log)
    requires a.len() <= b.len(), a == b.take(a.len() as int),
    ensures forall|from: int| #[trigger] told(me, from, a) ==> told(me, from, b), forall|from: int| #[trigger] sent(me, from, a) ==> sent(me, from, b),
        forall|from: int, v: int, x: int| #[trigger] seen(from, a, v, x) ==> seen(from, b, v, x)
{
    reveal(told); reveal(sent); reveal(seen);
    assert forall|from: int| #[trigger] told(me, from, a) implies told(me, from, b) by {
        let i = choose|i: int| #![trigger a[i]] 0 <= from <= i < a.len() && a[i].0 == me && a[i].1 is Inc;
        assert(b[i] == a[i]);
    }
    assert forall|from: int| #[trigger] sent(me, from, a) implies sent(me, from, b) by {
        let (i, d) = choose|i: int, d: int| #![trigger a[i], a[d]] 0 <= from <= i < d < a.len() && a[i].0 == me && a[i].1 is Inc && a[d] == (me, Ev::Drain);
        assert(b[i] == a[i] && b[d] == a[d]);
    }
    assert forall|from: int, v: int, x: int| #[trigger] seen(from, a, v, x) implies seen(from, b, v, x) by {
        let c = choose|c: int| #![trigger a.take(c)] 0 <= from <= c <= a.len() && version(v, a.take(c)) == x;
        assert(b.take(c) =~= a.take(c));
    }
}

pub proof fn split(me: int, a: Log, b: Log, e: Ev)
    requires did(me, a, b, e),
    ensures a.len() < b.len(), a == b.take(a.len() as int), b[b.len() - 1] == (me, e),
        forall|i: int| a.len() <= i < b.len() - 1 ==> (#[trigger] b[i]).0 != me && (b[i].1 matches Ev::Inc(n) ==> n > 0),
{
    let c = b.drop_last();
    assert(b.take(a.len() as int) =~= c.take(a.len() as int));
    assert forall|i: int| a.len() <= i < b.len() - 1 implies (#[trigger] b[i]).0 != me && (b[i].1 matches Ev::Inc(n) ==> n > 0) by { assert(c[i] == b[i]); }
}
}
/// what every step of a call keeps up
pub mod stepping { use super::*;
use super::going::*;
pub broadcast proof fn waits(me: int, a: Log, b: Log)
    requires #[trigger] others(me, a, b),
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b),
        forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) ==> behaves(me, from, b, r),
        forall|v: int| #[trigger] version(v, a) <= version(v, b),
        forall|from: int| #[trigger] told(me, from, a) ==> told(me, from, b), forall|from: int| #[trigger] sent(me, from, a) ==> sent(me, from, b),
        forall|from: int, v: int, x: int| #[trigger] seen(from, a, v, x) ==> seen(from, b, v, x),
        forall|from: int, w: Waker| #[trigger] registered(me, from, a, w) ==> registered(me, from, b, w),
        forall|from: int, v: int, x: int, w: Waker| #[trigger] pending(me, from, a, v, x, w) ==> pending(me, from, b, v, x, w),
{
    onto_on(a, b);
    assert forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) implies behaves(me, from, b, r) by { behaves_on(me, from, a, b, r, r); }
    assert forall|v: int| #[trigger] version(v, a) <= version(v, b) by { grows(v, a, b); }
    known_on(me, a, b);
    assert forall|from: int, w: Waker| #[trigger] registered(me, from, a, w) implies registered(me, from, b, w) by {
        reveal(registered);
        let (p, k) = choose|p: int, k: int| 0 <= from <= p && #[trigger] put(me, p, k, w, a);
        put_on(me, p, k, w, a, b);
    }
    assert forall|from: int, v: int, x: int, w: Waker| #[trigger] pending(me, from, a, v, x, w) implies pending(me, from, b, v, x, w) by {
        reveal(pending);
        let (p, k, c) = choose|p: int, k: int, c: int| #[trigger] pend_at(me, from, a, v, x, w, p, k, c);
        put_on(me, p, k, w, a, b);
        takes(a, b, c);
        if c <= p { assert forall|i: int| c <= i < p implies !touches_any(#[trigger] b[i].1) by { assert(b[i] == a[i]); } }
        assert(pend_at(me, from, b, v, x, w, p, k, c));
    }
}
pub proof fn put_on(me: int, p: int, k: int, w: Waker, a: Log, b: Log)
    requires put(me, p, k, w, a), a.len() <= b.len(), a == b.take(a.len() as int), forall|i: int| a.len() <= i < b.len() && (#[trigger] b[i]).0 == me ==> !touches(b[i].1, k),
    ensures put(me, p, k, w, b)
{
    assert(b[p] == a[p]);
    assert forall|i: int| p < i < b.len() && (#[trigger] b[i]).0 == me implies !touches(b[i].1, k) by { if i < a.len() { assert(b[i] == a[i]); } }
}
/// the version is looked at
pub broadcast proof fn looks(me: int, v: int, a: Log, b: Log)
    requires #[trigger] others(me, a, b),
    ensures forall|from: int| 0 <= from <= a.len() ==> #[trigger] seen(from, b, v, #[trigger] version(v, b)),
        forall|from: int, w: Waker| #[trigger] registered(me, from, a, w) ==> pending(me, from, b, v, version(v, b), w),
{
    assert(b.take(b.len() as int) =~= b);
    assert forall|from: int| 0 <= from <= a.len() implies #[trigger] seen(from, b, v, #[trigger] version(v, b)) by {
        reveal(seen);
        assert(version(v, b.take(b.len() as int)) == version(v, b));
    }
    assert forall|from: int, w: Waker| #[trigger] registered(me, from, a, w) implies pending(me, from, b, v, version(v, b), w) by {
        reveal(registered); reveal(pending);
        let (p, k) = choose|p: int, k: int| 0 <= from <= p && #[trigger] put(me, p, k, w, a);
        put_on(me, p, k, w, a, b);
        assert(pend_at(me, from, b, v, version(v, b), w, p, k, b.len() as int));
    }
}

pub broadcast proof fn does_inc(me: int, a: Log, b: Log, n: int)
    requires #[trigger] did(me, a, b, Ev::Inc(n)), n > 0,
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b),
        forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) ==> behaves(me, from, b, r) && told(me, from, b),
        forall|v: int| #[trigger] version(v, a) < version(v, b), forall|from: int| #[trigger] sent(me, from, a) ==> sent(me, from, b),
{
    split(me, a, b, Ev::Inc(n));
    onto_on(a, b);
    known_on(me, a, b);
    assert forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) implies behaves(me, from, b, r) && told(me, from, b) by {
        behaves_on(me, from, a, b, r, r);
        reveal(behaves); reveal(told);
        assert(b[b.len() - 1].0 == me);
    }
    assert forall|v: int| #[trigger] version(v, a) < version(v, b) by { let c = b.drop_last(); grows(v, a, c); }
}
pub broadcast proof fn does_drain(me: int, a: Log, b: Log, r: Seq<Waker>)
    requires #[trigger] did(me, a, b, Ev::Drain), #[trigger] all_of(slab(b.drop_last()), r),
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b),
        forall|from: int| #[trigger] behaves(me, from, a, Seq::empty()) ==> behaves(me, from, b, r),
        forall|from: int| #[trigger] told(me, from, a) ==> told(me, from, b) && sent(me, from, b),
{
    split(me, a, b, Ev::Drain);
    onto_on(a, b);
    known_on(me, a, b);
    assert(b.take(b.len() - 1) =~= b.drop_last());
    assert forall|from: int| #[trigger] behaves(me, from, a, Seq::empty()) implies behaves(me, from, b, r) by { behaves_on(me, from, a, b, Seq::empty(), r); }
    assert forall|from: int| #[trigger] told(me, from, a) implies told(me, from, b) && sent(me, from, b) by {
        reveal(told); reveal(sent);
        let i = choose|i: int| #![trigger a[i]] 0 <= from <= i < a.len() && a[i].0 == me && a[i].1 is Inc;
        assert(b[i] == a[i]);
        assert(b[b.len() - 1] == (me, Ev::Drain));
    }
}
pub broadcast proof fn does_wake(me: int, a: Log, b: Log, w: Waker)
    requires #[trigger] did(me, a, b, Ev::Wake(w)),
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b),
        forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) ==> behaves(me, from, b, r),
        forall|from: int, r: Seq<Waker>| #![trigger behaves(me, from, a, r)] r.len() > 0 && r.first() == w && behaves(me, from, a, r) ==> behaves(me, from, b, r.drop_first()),
        forall|v: int| #[trigger] version(v, a) <= version(v, b),
        forall|from: int| #[trigger] told(me, from, a) ==> told(me, from, b), forall|from: int| #[trigger] sent(me, from, a) ==> sent(me, from, b),
{
    split(me, a, b, Ev::Wake(w));
    onto_on(a, b);
    known_on(me, a, b);
    assert(b[b.len() - 1] == (me, Ev::Wake(w)));
    assert forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) implies behaves(me, from, b, r) by { behaves_on(me, from, a, b, r, r); }
    assert forall|from: int, r: Seq<Waker>| #![trigger behaves(me, from, a, r)] r.len() > 0 && r.first() == w && behaves(me, from, a, r) implies behaves(me, from, b, r.drop_first()) by {
        assert forall|d: int, x: Waker| #![trigger wakes(me, d, x, b)] 0 <= d < a.len() && r.contains(x) implies r.drop_first().contains(x) || wakes(me, d, x, b) by {
            if x == w { assert(b[b.len() - 1] == (me, Ev::Wake(x))); } else {
                let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
                assert(r.drop_first()[i - 1] == x);
            }
        }
        behaves_on(me, from, a, b, r, r.drop_first());
    }
    assert forall|v: int| #[trigger] version(v, a) <= version(v, b) by { let c = b.drop_last(); grows(v, a, c); grows(v, c, b); }
}
pub broadcast proof fn does_put(me: int, a: Log, b: Log, k: int, w: Waker)
    requires #[trigger] did(me, a, b, Ev::Put(k, w)), !slab(b.drop_last()).contains_key(k),
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b),
        forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) ==> behaves(me, from, b, r) && registered(me, from, b, w),
        forall|v: int| #[trigger] version(v, a) <= version(v, b),
        forall|from: int, v: int, n: int| #![trigger behaves(me, from, a, Seq::empty()), version(v, a), quiet(n, b)] behaves(me, from, a, Seq::empty()) && n <= a.len() && quiet(n, b)
            ==> pending(me, from, b, v, version(v, a), w),
        mine(me, b.len() - 1, k, b),
{
    split(me, a, b, Ev::Put(k, w));
    onto_on(a, b);
    known_on(me, a, b);
    assert(b.take(b.len() - 1) =~= b.drop_last());
    assert(b[b.len() - 1] == (me, Ev::Put(k, w)));
    assert(put(me, b.len() - 1, k, w, b));
    assert forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) implies behaves(me, from, b, r) && registered(me, from, b, w) by {
        behaves_on(me, from, a, b, r, r);
        reveal(behaves); reveal(registered);
    }
    assert forall|v: int| #[trigger] version(v, a) <= version(v, b) by { let c = b.drop_last(); grows(v, a, c); grows(v, c, b); }
    assert forall|from: int, v: int, n: int| #![trigger behaves(me, from, a, Seq::empty()), version(v, a), quiet(n, b)] behaves(me, from, a, Seq::empty()) && n <= a.len() && quiet(n, b)
            implies pending(me, from, b, v, version(v, a), w) by {
        reveal(pending); reveal(behaves);
        assert(b.take(a.len() as int) == a);
        assert(pend_at(me, from, b, v, version(v, a), w, b.len() - 1, k, a.len() as int));
    }
}
/// `me` has registered a waker at `k`, and nobody has touched it
pub open spec fn mine(me: int, p: int, k: int, log: Log) -> bool {
    0 <= p < log.len() && log[p].0 == me && log[p].1 is Put && log[p].1->Put_0 == k && forall|i: int| p < i < log.len() ==> !touches(#[trigger] log[i].1, k)
}
pub broadcast proof fn does_remove(me: int, a: Log, b: Log, k: int, p: int, c: Log, n: int)
    requires #[trigger] did(me, a, b, Ev::Remove(k)), #[trigger] mine(me, p, k, c), c.len() <= a.len(), c == a.take(c.len() as int), #[trigger] quiet(n, b), n == c.len(),
    ensures forall|x: Log| #[trigger] onto(x, a) ==> onto(x, b),
        forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) ==> behaves(me, from, b, r),
        forall|v: int| #[trigger] version(v, a) <= version(v, b),
{
    split(me, a, b, Ev::Remove(k));
    onto_on(a, b);
    let l = b.len() - 1;
    takes(a, b, c.len() as int);
    assert(b[p] == c[p]);
    assert forall|i: int| p < i < l implies !touches(#[trigger] b[i].1, k) by { if i < c.len() { assert(b[i] == c[i]); } }
    assert(own(me, l, k, b));
    assert forall|from: int, r: Seq<Waker>| #[trigger] behaves(me, from, a, r) implies behaves(me, from, b, r) by { behaves_on(me, from, a, b, r, r); }
    assert forall|v: int| #[trigger] version(v, a) <= version(v, b) by { let c = b.drop_last(); grows(v, a, c); grows(v, c, b); }
}
}
pub mod calls { use super::*;
use super::stepping::*;
broadcast use {stepping::waits, stepping::looks, stepping::does_inc, stepping::does_drain, stepping::does_wake, stepping::does_put, stepping::does_remove};
impl Notify {
    /// the version it starts with
    pub open spec fn first(&self) -> int { self.version.initial() }
    pub open spec fn fits(&self, m: &Env) -> bool { m.at().0 == self.version.id() && m.at().1 == self.wakers.id() && self.wakers.initial() == Map::<int, Waker>::empty() }
}
/// the call has gone on from `a` to `b`, and behaved
pub open spec fn gone(a: &Env, b: &Env) -> bool { b.at() == a.at() && b.me() == a.me() && onto(a@, b@) && behaves(a.me(), a@.len() as int, b@, Seq::empty()) }
pub proof fn starts(m: &Env) ensures behaves(m.me(), m@.len() as int, m@, Seq::empty()), onto(m@, m@) { reveal(behaves); reveal(onto); assert(m@.take(m@.len() as int) =~= m@); }
//@memtype
//@impl n - Notify only=new
//@fn new
    ensures res.wakers.initial() == Map::<int, Waker>::empty(),
//@end
//@memtype Env
//@impl n - Notify only=send,wait
//@fn send loops=1
    requires self.fits(old(vx_mem)),
    ensures gone(old(vx_mem), final(vx_mem)), sent(old(vx_mem).me(), old(vx_mem)@.len() as int, final(vx_mem)@),
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
    proof { starts(vx_mem); }
//@loop 0
    invariant onto(old(vx_mem)@, vx_mem@), vx_mem.at() == old(vx_mem).at(), vx_mem.me() == old(vx_mem).me(),
        behaves(old(vx_mem).me(), old(vx_mem)@.len() as int, vx_mem@, vx_it0.rest()),
        sent(old(vx_mem).me(), old(vx_mem)@.len() as int, vx_mem@),
//@fn wait
    requires self.fits(old(vx_mem)),
    ensures gone(old(vx_mem), final(vx_mem)), res.signal == self, seen(old(vx_mem)@.len() as int, final(vx_mem)@, self.first(), res.version as int),
        res.version <= version(self.first(), final(vx_mem)@),
//@head
    proof { starts(vx_mem); }
//@end
//@impl n Future Wait inherent
//@inject
//@fn poll
    requires old(self).signal.fits(old(vx_mem)), old(self).version <= version(old(self).signal.first(), old(vx_mem)@),
    ensures gone(old(vx_mem), final(vx_mem)), final(self).signal == old(self).signal, final(self).version == old(self).version,
        match res {
            Poll::Ready(()) => old(self).version < version(old(self).signal.first(), final(vx_mem)@),
            Poll::Pending => pending(old(vx_mem).me(), old(vx_mem)@.len() as int, final(vx_mem)@, old(self).signal.first(), old(self).version as int, old($0).it()),
        },
//@head
    proof { starts(vx_mem); }
//@end
}
/// C20, over any history of calls to `send`, `wait` and `poll`
pub mod theorem { use super::*;
use super::going::*;
/// all calls have ended and kept their contracts
pub open spec fn history(log: Log) -> bool { forall|d: int| 0 <= d < log.len() ==> fair((#[trigger] log[d]).0, d, log, Seq::empty()) }
/// call `m` was made when `from` events had happened and came back after `to` of them
pub open spec fn part(m: int, from: int, to: int, log: Log) -> bool {
    &&& 0 <= from <= to <= log.len() && behaves(m, from, log.take(to), Seq::empty())
    &&& forall|i: int| 0 <= i < log.len() && (#[trigger] log[i]).0 == m ==> from <= i < to
}
pub proof fn calls_make_history(log: Log, from: Map<int, int>, to: Map<int, int>)
    requires forall|i: int| 0 <= i < log.len() ==> part((#[trigger] log[i]).0, from[log[i].0], to[log[i].0], log),
    ensures history(log)
{
    assert forall|d: int| 0 <= d < log.len() implies fair((#[trigger] log[d]).0, d, log, Seq::empty()) by {
        let m = log[d].0;
        let a = log.take(to[m]);
        reveal(behaves);
        assert(a[d] == log[d]);
        fair_on(m, d, a, log, Seq::empty(), Seq::empty());
    }
}
/// a registered waker stays until the wakers are taken out
pub proof fn stays(log: Log, me: int, p: int, k: int, w: Waker, e: int)
    requires history(log), 0 <= p < e <= log.len(), log[p] == (me, Ev::Put(k, w)),
        forall|i: int| p < i < e ==> (#[trigger] log[i]).1 !is Drain && (log[i].0 == me ==> !touches(log[i].1, k)),
    ensures slab(log.take(e)).contains_key(k), slab(log.take(e))[k] == w
    decreases e
{
    let a = log.take(e - 1); let b = log.take(e);
    assert(b.drop_last() =~= a);
    assert(b.last() == log[e - 1]);
    if e - 1 > p {
        stays(log, me, p, k, w, e - 1);
        let m = log[e - 1].0;
        assert(fair(m, e - 1, log, Seq::empty()));
        match log[e - 1].1 {
            Ev::Remove(j) => { if j == k {
                assert(own(m, e - 1, k, log));
                let q = choose|q: int| #![trigger log[q]] 0 <= q < e - 1 && log[q].0 == m && log[q].1 is Put && log[q].1->Put_0 == k && forall|i: int| q < i < e - 1 ==> !touches(#[trigger] log[i].1, k);
                if q < p { assert(touches(log[p].1, k)); } else if q > p { stays(log, me, p, k, w, q); assert(fair(m, q, log, Seq::empty())); }
            } },
            _ => {},
        }
    }
}
/// whoever asks in vain is woken by everyone who tells news after it was made (or by who takes out the wakers before them)
pub proof fn never_lost(log: Log, v: int, c0: int, x: int, me: int, from: int, t: int, w: Waker, s: int)
    requires history(log), 0 <= c0 <= from <= t <= log.len(),
        // the waiter was made at `c0` (see `wait`); `me` polled it in vain (see `poll`), and came back after `t` events
        version(v, log.take(c0)) == x, pending(me, from, log.take(t), v, x, w), forall|i: int| t <= i < log.len() ==> (#[trigger] log[i]).0 != me,
        // `s` has told news after it was made (see `send`)
        sent(s, c0, log),
    ensures exists|p: int, d: int, m: int| from <= p < d && p < t && (#[trigger] log[p]) == (me, Ev::Put(log[p].1->Put_0, w)) && #[trigger] wakes(m, d, w, log)
{
    reveal(pending); reveal(sent);
    let l = log.take(t);
    let (p, k, c) = choose|p: int, k: int, c: int| #[trigger] pend_at(me, from, l, v, x, w, p, k, c);
    let (i, d) = choose|i: int, d: int| #![trigger log[i], log[d]] 0 <= c0 <= i < d < log.len() && log[i].0 == s && log[i].1 is Inc && log[d] == (s, Ev::Drain);
    takes(l, log, c);
    not_yet(log, v, c0, c, i);
    assert(log[p] == l[p]);
    assert(p < d) by { if d < p { assert(l[d] == log[d]); } }
    let e = first_drain(log, p, d);
    assert forall|j: int| p < j < e implies (#[trigger] log[j]).1 !is Drain && (log[j].0 == me ==> !touches(log[j].1, k)) by { if j < t { assert(l[j] == log[j]); } }
    stays(log, me, p, k, w, e);
    assert(fair(log[e].0, e, log, Seq::empty()));
    assert(wakes(log[e].0, e, w, log));
}
pub proof fn first_drain(log: Log, p: int, d: int) -> (e: int)
    requires 0 <= p < d < log.len(), log[d].1 is Drain,
    ensures p < e <= d, log[e].1 is Drain, forall|j: int| p < j < e ==> (#[trigger] log[j]).1 !is Drain
    decreases d - p
{
    if exists|j: int| p < j < d && (#[trigger] log[j]).1 is Drain {
        let j = choose|j: int| p < j < d && (#[trigger] log[j]).1 is Drain;
        first_drain(log, p, j)
    } else { d }
}
/// there is no news between two times with the same version
pub proof fn not_yet(log: Log, v: int, c0: int, c: int, i: int)
    requires history(log), 0 <= c0 <= c <= log.len(), c0 <= i < log.len(), version(v, log.take(c0)) == version(v, log.take(c)), log[i].1 is Inc,
    ensures c <= i
{
    if i < c {
        up(log, v, c0, i);
        up(log, v, i + 1, c);
        assert(log.take(i + 1).drop_last() =~= log.take(i));
        assert(log.take(i + 1).last() == log[i]);
        assert(fair(log[i].0, i, log, Seq::empty()));
    }
}
pub proof fn up(log: Log, v: int, a: int, b: int)
    requires history(log), 0 <= a <= b <= log.len(),
    ensures version(v, log.take(a)) <= version(v, log.take(b))
{
    assert(log.take(a) =~= log.take(b).take(a));
    assert forall|i: int| a <= i < b implies ((#[trigger] log.take(b)[i]).1 matches Ev::Inc(n) ==> n > 0) by { assert(log.take(b)[i] == log[i]); assert(fair(log[i].0, i, log, Seq::empty())); }
    grows(v, log.take(a), log.take(b));
}
/// once there was news, nobody asks in vain
pub proof fn asked_after(log: Log, v: int, c0: int, x: int, i: int, me: int, from: int, t: int, w: Waker)
    requires history(log), 0 <= c0 <= i < from <= t <= log.len(), version(v, log.take(c0)) == x, log[i].1 is Inc, pending(me, from, log.take(t), v, x, w),
    ensures false
{
    reveal(pending);
    let l = log.take(t);
    let (p, k, c) = choose|p: int, k: int, c: int| #[trigger] pend_at(me, from, l, v, x, w, p, k, c);
    takes(l, log, c);
    not_yet(log, v, c0, c, i);
}
/// without news nobody is told that there is some (see `poll`: it is ready when the version is greater than that of the waiter)
pub proof fn no_rumours(log: Log, v: int, c0: int, x: int, t: int)
    requires history(log), 0 <= c0 <= t <= log.len(), version(v, log.take(c0)) == x, x < version(v, log.take(t)),
    ensures exists|i: int| c0 <= i < t && (#[trigger] log[i]).1 is Inc
    decreases t
{
    if c0 < t {
        assert(log.take(t).drop_last() =~= log.take(t - 1));
        assert(log.take(t).last() == log[t - 1]);
        if log[t - 1].1 !is Inc { no_rumours(log, v, c0, x, t - 1); }
    }
}
/// What `runner.rs` takes a notification to be, proved of the real one: its `version(signal, t)` is the version after `t` events,
/// its `now()` how many there have been, and a waiter was made when its version was the one it keeps.
pub mod as_runner { use super::*;
pub open spec fn at(log: Log, v: int, t: int) -> int { version(v, log.take(t)) }
/// `wait`: it is made while the call goes on
pub proof fn made(log: Log, v: int, a: int, b: int, x: int)
    requires 0 <= a <= b <= log.len(), seen(a, log.take(b), v, x),
    ensures exists|c: int| a <= c <= b && #[trigger] at(log, v, c) == x
{
    reveal(seen);
    let l = log.take(b);
    let c = choose|c: int| #![trigger l.take(c)] 0 <= a <= c <= l.len() && version(v, l.take(c)) == x;
    takes(l, log, c);
    assert(at(log, v, c) == x);
}
/// `poll` is ready only after the version left that of the waiter, and what it needs to know holds whenever it is polled
pub proof fn ready(log: Log, v: int, c: int, a: int, b: int, x: int)
    requires history(log), 0 <= c <= a <= b <= log.len(), at(log, v, c) == x,
    ensures x <= version(v, log.take(a)), x < version(v, log.take(b)) ==> at(log, v, b) != at(log, v, c)
{ up(log, v, c, a); }
/// `poll` is pending only if the version had not left that of the waiter when it was called
pub proof fn pends(log: Log, v: int, c: int, me: int, a: int, b: int, x: int, w: Waker)
    requires history(log), 0 <= c <= a <= b <= log.len(), at(log, v, c) == x, pending(me, a, log.take(b), v, x, w),
    ensures at(log, v, a) == at(log, v, c)
{
    reveal(pending);
    let l = log.take(b);
    let (p, k, d) = choose|p: int, k: int, d: int| #[trigger] pend_at(me, a, l, v, x, w, p, k, d);
    takes(l, log, d);
    up(log, v, c, a);
    up(log, v, a, d);
}
/// and then the waker is woken by the time any call that made the version leave that of the waiter has ended (`rings`)
pub proof fn rings(log: Log, v: int, c: int, me: int, a: int, b: int, x: int, w: Waker)
    requires history(log), 0 <= c <= a <= b <= log.len(), at(log, v, c) == x, pending(me, a, log.take(b), v, x, w),
        forall|i: int| b <= i < log.len() ==> (#[trigger] log[i]).0 != me,
    ensures forall|s: int| #[trigger] sent(s, c, log) ==> exists|m: int, d: int| a < d && #[trigger] wakes(m, d, w, log)
{
    assert forall|s: int| #[trigger] sent(s, c, log) implies exists|m: int, d: int| a < d && #[trigger] wakes(m, d, w, log) by {
        never_lost(log, v, c, x, me, a, b, w, s);
        let (p, d, m) = choose|p: int, d: int, m: int| a <= p < d && p < b && (#[trigger] log[p]) == (me, Ev::Put(log[p].1->Put_0, w)) && #[trigger] wakes(m, d, w, log);
        assert(a < d && wakes(m, d, w, log));
    }
}
}
}
pub use notifying::*;
}
fn main() {}
