// C17: the provided methods of buffer writers.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
//@mem write_to push
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
//@include writer.inc
/// Values that write themselves, and handing a writer to one.
pub mod write_to { use super::*;
//@memtype Mem<Item>
//@trait bw WriteTo
//@inject
    /// written by `self`, the writer `w` may become `w1`, and `res` be answered
    #[verifier::prophetic]
    spec fn writes<W: ?Sized + BufferWriter<Segment = Segment, Item = Item>>(self, w: &W, m: &Mem<Item>, w1: &W, m1: &Mem<Item>, res: Result<(), Self>) -> bool;
//@fn write_to
    requires old($0).sound(), old($0).buf().wf(old(vx_mem)), old($0).outside(old(vx_mem)),
    ensures self.writes(old($0), old(vx_mem), final($0), final(vx_mem), res),
        final($0).sound(), final($0).buf().wf(final(vx_mem)), final($0).outside(final(vx_mem)), final($0).kin(old($0)), final($0).buf().same(old($0).buf()),
        only_within(old(vx_mem), final(vx_mem), old($0).buf()),
//@end
//@memtype Mem<VxSelf::Item>
//@free bw BufferWriter
//@fn push
    requires old($0).sound(), old($0).buf().wf(old(vx_mem)), old($0).outside(old(vx_mem)),
    ensures $1.writes(old($0), old(vx_mem), final($0), final(vx_mem), res),
        final($0).sound(), final($0).buf().wf(final(vx_mem)), final($0).outside(final(vx_mem)), final($0).kin(old($0)), final($0).buf().same(old($0).buf()),
        only_within(old(vx_mem), final(vx_mem), old($0).buf()),
//@end
}
}
fn main() {}
