// C19: sources over iterators.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
//@futures
//@for
//@local future
//@erase IntoIter = Chunks<Self>
//@method as_ref vx_as_ref
//@method next vx_next
//@method iter vx_into_iter
//@method into_iter vx_into_iter
//@file is crates/parcom-sequence-sources/src/iterator_source.rs
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
//@include source.inc
//@include fut.inc
pub mod future { use super::*;
/// a future that is ready
#[verifier::external_body]
pub fn ready<R>(r: R) -> (f: Fut<R>) ensures f.out() == r { unimplemented!() }
}
#[verifier::external_body]
pub struct Never(());
/// Iterators and chunks a user supplies, and slices (TRUSTED).
pub mod chunks { use super::*;
/// stands for std's trait of that name; a user's implementation may show a reference `x`
pub trait AsRef<X: ?Sized> {
    spec fn shows(&self, x: &X) -> bool;
    fn vx_as_ref(&self) -> (r: &X) ensures self.shows(r);
}
/// an iterator of the user
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Chunks<I: IntoIterator>(PhantomData<I>);
/// the iterator `it` may yield `o` next and go on as `after`
pub uninterp spec fn yields<I: IntoIterator>(it: Chunks<I>, o: Option<I::Item>, after: Chunks<I>) -> bool;
impl<I: IntoIterator> Chunks<I> {
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<I::Item>) ensures yields(*old(self), r, *final(self)) { unimplemented!() }
}
/// iterating over a slice
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T>(&'a [T]);
impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<&'a T>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && *x == old(self).rest().first() && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn cloned(self) -> (r: Cloned<'a, T>) ensures r.0 == self { Cloned(self) }
}
/// clones of the items of a slice
#[verifier::reject_recursive_types(T)]
pub struct Cloned<'a, T>(pub SliceIter<'a, T>);
impl<'a, T: Clone> Cloned<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { self.0.rest() }
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && call_ensures(T::clone, (&old(self).rest().first(),), x) && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { match self.0.vx_next() { Some(x) => Some(x.clone()), None => None } }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}
/// the user's iterator `it` may be what `i` turns into
pub uninterp spec fn starts<I: IntoIterator>(i: I, it: Chunks<I>) -> bool;
}
pub use chunks::*;
pub mod slices { use super::*;
pub trait SliceIntoIter<'a, T> { fn vx_into_iter(&'a self) -> (r: SliceIter<'a, T>) ensures r.rest() == self.all(); spec fn all(&self) -> Seq<T>; }
impl<'a, T> SliceIntoIter<'a, T> for [T] {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(&'a self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
}
pub mod iterators { use super::*;
pub trait UserIntoIter: IntoIterator + Sized {
    fn vx_into_iter(self) -> (r: Chunks<Self>) ensures starts(self, r);
}
impl<I: IntoIterator> UserIntoIter for I {
    #[verifier::external_body] fn vx_into_iter(self) -> (r: Chunks<Self>) { unimplemented!() }
}
}

pub mod copied { use super::*;
/// `b` are clones of `a`
pub open spec fn clones<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> call_ensures(T::clone, (&a[i],), b[i])
}
/// of the items `all`, those before `rest` were written to a writer that `c` gave, which became `w`
#[verifier::prophetic]
pub open spec fn copying<C: SequenceControl>(c: C, m0: &Mem<C::Item>, all: Seq<C::Item>, rest: Seq<C::Item>, w: C::Writer, m: &Mem<C::Item>) -> bool where C::Item: Clone {
    exists|n: int, w0: C::Writer, ma: &Mem<C::Item>, items: Seq<C::Item>| {
        &&& #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n >= all.len()
        &&& #[trigger] wrote(w0, ma, items, w, m)
        &&& items.len() <= all.len() && rest == all.skip(items.len() as int) && clones(all.take(items.len() as int), items)
    }
}
pub broadcast proof fn begin<C: SequenceControl>(c: C, m0: &Mem<C::Item>, n: int, all: Seq<C::Item>, w: C::Writer, m: &Mem<C::Item>) where C::Item: Clone
    requires #[trigger] c.opened(n, m0, w, m), w.buf().cap >= n >= all.len(), w.sound(), w.buf().wf(m), w.outside(m), w.buf().written == 0,
    ensures #[trigger] copying(c, m0, all, all, w, m)
{
    C::Writer::laws();
    assert(w.buf().items(m) =~= Seq::<C::Item>::empty());
    assert(all.skip(0) =~= all);
    assert(wrote(w, m, Seq::<C::Item>::empty(), w, m));
}
pub broadcast proof fn go_on<C: SequenceControl>(c: C, m0: &Mem<C::Item>, all: Seq<C::Item>, rest: Seq<C::Item>, w: C::Writer, m: &Mem<C::Item>, v: C::Item, w2: C::Writer, m2: &Mem<C::Item>) where C::Item: Clone
    requires #[trigger] copying(c, m0, all, rest, w, m), rest.len() > 0, only_within(m, m2, w.buf()), w2.kin(&w), w2.buf().same(w.buf()), w2.sound(), w2.buf().wf(m2), w2.outside(m2),
        #[trigger] w2.buf().items(m2) == #[trigger] w.buf().items(m).push(v), call_ensures(<C::Item as Clone>::clone, (&rest[0],), v),
    ensures copying(c, m0, all, rest.drop_first(), w2, m2)
{
    C::Writer::laws();
    let (n, w0, ma, items) = choose|n: int, w0: C::Writer, ma: &Mem<C::Item>, items: Seq<C::Item>| {
        &&& #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n >= all.len()
        &&& #[trigger] wrote(w0, ma, items, w, m)
        &&& items.len() <= all.len() && rest == all.skip(items.len() as int) && clones(all.take(items.len() as int), items)
    };
    let more = items.push(v);
    let b = w0.buf();
    assert(only_within(m, m2, b));
    within_trans(ma, m, m2, b);
    assert(wrote(w0, ma, more, w2, m2));
    assert(rest.drop_first() =~= all.skip(more.len() as int));
    assert(all.take(more.len() as int) =~= all.take(items.len() as int).push(rest[0]));
    assert(clones(all.take(more.len() as int), more));
}
}
pub use copied::*;
pub mod stepped { use super::*;
/// the items of chunk `k` are handed over
pub open spec fn handed<K: AsRef<[T]>, T: Clone>(k: K, a: Act<T, Never>) -> bool {
    exists|seg: &[T]| #[trigger] k.shows(seg) && (a matches Act::Write(n, items) && n >= seg@.len() && clones(seg@, items))
}
/// the next chunk of `it` is
pub open spec fn hands_over<I: IntoIterator, T: Clone>(it: Chunks<I>, a: Act<T, Never>, it2: Chunks<I>) -> bool where I::Item: AsRef<[T]> {
        exists|o: Option<I::Item>| #[trigger] yields(it, o, it2) && match o {
            None => a is Finish,
            Some(k) => handed(k, a),
        }
}
pub broadcast proof fn none<I: IntoIterator, C: SequenceControl<Error = Never>>(it: Chunks<I>, it2: Chunks<I>, c: C, m0: &Mem<C::Item>, m1: &Mem<C::Item>, r: C::Result) where I::Item: AsRef<[C::Item]>, C::Item: Clone
    requires #[trigger] yields(it, None, it2), #[trigger] c.finished(m0, m1, r),
    ensures exists|a: Act<C::Item, Never>| hands_over::<I, C::Item>(it, a, it2) && #[trigger] did(c, m0, a, m1, r)
{ assert(hands_over::<I, C::Item>(it, Act::Finish, it2)); assert(did(c, m0, Act::Finish, m1, r)); }
pub broadcast proof fn some<I: IntoIterator, C: SequenceControl<Error = Never>>(it: Chunks<I>, k: I::Item, seg: &[C::Item], it2: Chunks<I>, c: C, rest: Seq<C::Item>, w: C::Writer, m0: &Mem<C::Item>, m: &Mem<C::Item>, m1: &Mem<C::Item>, r: C::Result) where I::Item: AsRef<[C::Item]>, C::Item: Clone
    requires #[trigger] yields(it, Some(k), it2), #[trigger] k.shows(seg), #[trigger] copying(c, m0, seg@, rest, w, m), rest.len() == 0, #[trigger] w.advanced(m, m1, r),
    ensures exists|a: Act<C::Item, Never>| hands_over::<I, C::Item>(it, a, it2) && #[trigger] did(c, m0, a, m1, r)
{
    let (n, w0, ma, items) = choose|n: int, w0: C::Writer, ma: &Mem<C::Item>, items: Seq<C::Item>| {
        &&& #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n >= seg@.len()
        &&& #[trigger] wrote(w0, ma, items, w, m)
        &&& items.len() <= seg@.len() && rest == seg@.skip(items.len() as int) && clones(seg@.take(items.len() as int), items)
    };
    assert(seg@.take(items.len() as int) =~= seg@);
    let a = Act::<C::Item, Never>::Write(n, items);
    assert(handed(k, a));
    assert(hands_over::<I, C::Item>(it, a, it2));
    assert(did(c, m0, a, m1, r));
}
}
pub use stepped::hands_over;
pub mod itersource { use super::*;
broadcast use {copied::begin, copied::go_on, stepped::none, stepped::some};
//@take is struct IteratorSource
pub mod made { use super::*; use super::super::iterators::UserIntoIter;
//@impl is - IteratorSource only=new
//@fn new
    ensures starts($0, res.iter),
//@end
}
use super::slices::SliceIntoIter;
//@impl is SequenceSource IteratorSource
//@inject
    open spec fn fit(self) -> bool { true }
    open spec fn asks(n: int) -> bool { 0 <= n <= usize::MAX }
    open spec fn gives(self, a: Act<T, Never>, after: Self) -> bool {
        hands_over::<I, T>(self.iter, a, after.iter)
    }
//@fn next loops=1
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
    proof { C::Writer::laws(); assert forall|n: int| 0 <= n <= usize::MAX implies #[trigger] control.grants(n) by { assert(Self::asks(n)); } }
//@loop 0
    invariant copying(control, old(vx_mem), $seg@, vx_it0.rest(), $req, vx_mem),
//@end
}
}
fn main() {}
