pub mod futures { use super::*;
/// Stands for the future of a step: what it will finally answer is settled by its contract when it is made, and
/// polling it (to completion) brings that answer forth. TRUSTED.
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct Fut<R>(PhantomData<R>);
pub enum Poll<R> { Ready(R), Pending }
pub struct Context<'a>(PhantomData<&'a ()>);
impl<R> Fut<R> {
    pub uninterp spec fn out(&self) -> R;
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<R>)
        ensures final(self).out() == old(self).out(), r matches Poll::Ready(v) ==> v == old(self).out() { unimplemented!() }
    pub fn into_future(self) -> (r: Self) ensures r == self { self }
}
}
pub use futures::*;
