// The small vector is a stack: the contracts are those which `shortvec.rs` proves of the real one (`Stack`).
pub mod shortvec { use super::*;
//@include stack.inc
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ShortVec<T, const N: usize> { data: Vec<T> }
impl<T, const N: usize> View for ShortVec<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, const N: usize> ShortVec<T, N> {
#[verifier::external_body] pub fn new() -> (r: Self) ensures stack_new(r@) { unimplemented!() }
#[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures stack_new(r@) { unimplemented!() }
#[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures stack_empty(self@, r) { unimplemented!() }
#[verifier::external_body] pub fn push(&mut self, v: T) ensures stack_push(old(self)@, v, final(self)@) { unimplemented!() }
#[verifier::external_body] pub fn pop(&mut self) -> (r: Option<T>)
    ensures stack_pop(old(self)@, r, final(self)@) { unimplemented!() }
}
pub broadcast proof fn push_back<T>(st: Seq<T>, x: T) requires st.len() > 0, x == st.last(), ensures #[trigger] st.drop_last().push(x) == st { assert(st.drop_last().push(x) =~= st); }
}
pub use shortvec::ShortVec;
