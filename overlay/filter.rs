// C21: the filter of parcom-internals' observables.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
//@file reactive crates/parcom-internals/src/reactive.rs
//@file predicate crates/parcom-internals/src/reactive/predicate.rs
//@file extension crates/parcom-internals/src/reactive/extension.rs
//@file filter crates/parcom-internals/src/reactive/extension/filter.rs
//@erase Subscription = Sub<Self, $0>
verus! {
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
//@include memfns.inc
pub fn vx_assert(b: bool) requires b {}

/// what `O` gives for subscribing `U`
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(U)]
pub struct Sub<O: ?Sized, U>(PhantomData<U>, PhantomData<O>);

//@trait predicate Predicate
//@inject
    /// whether the predicate can be asked
    spec fn total(&self) -> bool;
    /// it may answer `b`
    spec fn tells(&self, item: &T, b: bool) -> bool;
//@fn test
    requires self.total(),
    ensures self.tells($0, res),
//@end
//@impl predicate Predicate F
//@inject
    open spec fn total(&self) -> bool { forall|v: &T| #[trigger] self.requires((v,)) }
    open spec fn tells(&self, item: &T, b: bool) -> bool { self.ensures((item,), b) }
//@end
//@trait reactive IObserver
//@inject
    spec fn ready(&self) -> bool;
    /// `post` is the observer after it was given `item`
    spec fn given(&self, item: T, post: &Self) -> bool;
//@fn next
    requires old(self).ready(),
    ensures final(self).ready(), old(self).given($0, final(self)),
//@end
//@trait reactive IObservable
//@inject
    spec fn subscribed<U: IObserver<T>>(&self, observer: U, sub: Sub<Self, U>) -> bool;
//@fn subscribe
    requires $0.ready(),
    ensures self.subscribed($0, res),
//@end
//@take filter struct Filter
//@take filter struct Observer
//@take filter struct Subscription
//@impl filter - Filter only=new
//@fn new
    ensures res.observable == $0, *res.predicate == $1,
//@end
//@impl filter IObserver Observer
//@inject
    open spec fn ready(&self) -> bool { self.observer.ready() && self.predicate.total() }
    /// exactly the matching items reach the observer behind the filter
    open spec fn given(&self, item: T, post: &Self) -> bool {
        &&& post.predicate == self.predicate
        &&& exists|b: bool| #[trigger] self.predicate.tells(&item, b)
            && if b { self.observer.given(item, &post.observer) } else { post.observer == self.observer }
    }
//@end
//@impl filter IObservable Filter inherent
//@fn subscribe
    requires $0.ready(), self.predicate.total(),
    ensures self.observable.subscribed(Observer { observer: $0, predicate: self.predicate, _phantom: PhantomData }, res.0),
//@end
//@trait extension ObservableExtensions
//@fn filter
    ensures res.observable == self, *res.predicate == $0,
//@end
}
fn main() {}
