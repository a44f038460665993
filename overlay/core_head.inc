// Interfaces shared by the combinator units: the traits of parcom-core, parcom-util's error
// wrappers and result constructors, taken from /repo, with their contracts.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, unused_assignments)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use std::marker::PhantomData;
//@file core_lib crates/parcom-core/src/lib.rs
//@file parse_error crates/parcom-core/src/parse_error.rs
//@file parser crates/parcom-core/src/parser.rs
//@file sequence crates/parcom-core/src/sequence.rs
//@file unknown crates/parcom-core/src/unknown.rs
//@file either crates/parcom-util/src/either.rs
//@file either_both crates/parcom-util/src/either_both.rs
//@file util_error crates/parcom-util/src/error.rs
//@file util_lib crates/parcom-util/src/lib.rs
//@erase Advance = Self
//@erase Rewind = Self
verus! {
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}

pub mod tb {
#![allow(unused_imports)]
use vstd::prelude::*;
/// `a.into()` may produce `b`
pub open spec fn into_rel<A: Into<B>, B>(a: A, b: B) -> bool { call_ensures(<A as Into<B>>::into, (a,), b) }
pub open spec fn from_rel<A, B: From<A>>(a: A, b: B) -> bool { call_ensures(<B as From<A>>::from, (a,), b) }
// TRUSTED: std's blanket `impl<T> From<T> for T` is the identity
pub broadcast axiom fn ax_into_refl<A>(a: A, b: A) requires #[trigger] into_rel::<A, A>(a, b) ensures a == b;
// TRUSTED: std's blanket `impl<T, U: From<T>> Into<U> for T` calls `U::from`
pub broadcast axiom fn ax_into_from<A, B: From<A>>(a: A, b: B) requires #[trigger] into_rel::<A, B>(a, b) ensures from_rel::<A, B>(a, b);
pub broadcast axiom fn ax_from_into<A, B: From<A>>(a: A, b: B) requires #[trigger] call_ensures(<B as From<A>>::from, (a,), b) ensures into_rel::<A, B>(a, b);
pub broadcast group conv { ax_into_refl, ax_into_from, ax_from_into }
}
pub use tb::*;
//@include memfns.inc

//@trait parse_error ParseError
//@inject
    /// whether the error is fatal
    spec fn fatal(&self) -> bool;
//@fn should_terminate
    ensures res == self.fatal(),
//@end

