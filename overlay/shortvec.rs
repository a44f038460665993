// C15: the small vector.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
//@file sv crates/parcom-internals/src/shortvec.rs
//@rawptr
//@local ptr slice mem alloc array
//@union ShortVecData stack heap
//@mem write read as_ref as_mut transmute drop_in_place copy_nonoverlapping copy from_raw_parts from_raw_parts_mut
//@mem alloc alloc::alloc alloc::realloc alloc::dealloc dangling Self::new Self::default with_capacity as_slice as_slice_mut push pop reserve reserve_exact drop
//@index
//@memtype Mem<T>
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
//@include mem.inc
//@include alloc.inc
pub mod small { use super::*;
broadcast use {bytes_count, fits_less};
pub spec const TOP: int = 0x7fff_ffff_ffff_ffff;
/// far enough from the limits of the address space: what is claimed leaves the policy of growing free
pub open spec fn room<T>(n: int) -> bool { 4 * n + 64 <= TOP && fits::<T>(4 * n + 64) }
//@take sv struct ShortVec
impl<T, const N: usize> ShortVec<T, N> {
    pub open spec fn block(&self) -> int { self.data.start().block() }
    /// the storage is in order and holds exactly the first `len` cells
    pub open spec fn wf(&self, m: &Mem<T>) -> bool {
        let b = m@[self.block()];
        &&& N <= self.cap <= TOP && self.len <= self.cap
        &&& self.data.on_heap() == (self.cap > N)
        &&& m@.contains_key(self.block()) && self.data.start().at() == 0
        &&& forall|i: int| #[trigger] (b.cells)(i) is Some <==> 0 <= i < self.len
        &&& b.owned == (self.cap > N && bytes::<T>(self.cap as int) != 0)
        &&& if b.owned { b.cap == self.cap } else if self.cap > N { b.cap == UNLIMITED } else { b.cap >= self.cap }
        &&& self.cap > N ==> fits::<T>(self.cap as int)
    }
    /// the items, first pushed first
    pub open spec fn items(&self, m: &Mem<T>) -> Seq<T> { m.row(self.data.start(), self.len as int) }
}
/// nothing but the block `b0` changed, which became `b1`; what it owned is not left behind, nor is anything in other new blocks
pub open spec fn only<T>(m0: &Mem<T>, m1: &Mem<T>, b0: int, b1: int) -> bool {
    &&& b1 == b0 || !m0@.contains_key(b1)
    &&& forall|b: int| b != b0 && b != b1 && m0@.contains_key(b) ==> #[trigger] m1@.contains_key(b) && m1@[b] == m0@[b]
    &&& forall|b: int| b != b0 && b != b1 && !m0@.contains_key(b) && #[trigger] m1@.contains_key(b) ==> !m1@[b].owned && unused(m1@[b].cells)
    &&& b1 != b0 && m1@.contains_key(b0) ==> !m1@[b0].owned && unused(m1@[b0].cells)
}
/// a new block, and no others in use
pub open spec fn added<T>(m0: &Mem<T>, m1: &Mem<T>, b1: int) -> bool {
    &&& !m0@.contains_key(b1)
    &&& forall|b: int| b != b1 && m0@.contains_key(b) ==> #[trigger] m1@.contains_key(b) && m1@[b] == m0@[b]
    &&& forall|b: int| b != b1 && !m0@.contains_key(b) && #[trigger] m1@.contains_key(b) ==> !m1@[b].owned && unused(m1@[b].cells)
}
//@impl sv - ShortVec only=new,with_capacity,as_ptr,as_slice,as_slice_mut,is_empty,push,pop,reserve,reserve_exact
//@fn new
    requires N <= TOP, room::<T>(16),
    ensures res.wf(final(vx_mem)), res.items(final(vx_mem)) == Seq::<T>::empty(), added(old(vx_mem), final(vx_mem), res.block()),
//@fn with_capacity
    requires N <= TOP, $0 <= N || room::<T>($0 as int),
    ensures res.wf(final(vx_mem)), res.items(final(vx_mem)) == Seq::<T>::empty(), added(old(vx_mem), final(vx_mem), res.block()),
//@fn as_ptr
    requires self.data.on_heap() == (self.cap > N),
    ensures res == self.data.start(),
//@fn is_empty
    ensures res == (self.len == 0),
//@fn as_slice
    requires self.wf(old(vx_mem)),
    ensures res@ == self.items(old(vx_mem)), final(vx_mem)@ == old(vx_mem)@,
//@fn as_slice_mut
    requires old(self).wf(old(vx_mem)),
    ensures res@ == old(self).items(old(vx_mem)), final(vx_mem)@ == old(vx_mem)@, *final(self) == *old(self),
//@fn push
    requires old(self).wf(old(vx_mem)), room::<T>(2 * old(self).cap + 16),
    ensures final(self).wf(final(vx_mem)), final(self).items(final(vx_mem)) == old(self).items(old(vx_mem)).push($0),
        only(old(vx_mem), final(vx_mem), old(self).block(), final(self).block()),
//@fn pop
    requires old(self).wf(old(vx_mem)),
    ensures final(self).wf(final(vx_mem)), only(old(vx_mem), final(vx_mem), old(self).block(), final(self).block()),
        match res {
            Some(v) => old(self).items(old(vx_mem)) == final(self).items(final(vx_mem)).push(v),
            None => old(self).items(old(vx_mem)).len() == 0 && final(self).items(final(vx_mem)).len() == 0,
        },
//@fn reserve
    requires old(self).wf(old(vx_mem)), room::<T>(old(self).cap as int), room::<T>($0 as int),
    ensures final(self).wf(final(vx_mem)), final(self).items(final(vx_mem)) == old(self).items(old(vx_mem)), final(self).cap >= $0,
        final(self).len == old(self).len, only(old(vx_mem), final(vx_mem), old(self).block(), final(self).block()),
//@fn reserve_exact
    requires old(self).wf(old(vx_mem)), $0 <= TOP, $0 > old(self).cap ==> $0 < TOP && fits::<T>($0 as int),
    ensures final(self).wf(final(vx_mem)), final(self).items(final(vx_mem)) == old(self).items(old(vx_mem)), final(self).cap >= $0,
        final(self).len == old(self).len, only(old(vx_mem), final(vx_mem), old(self).block(), final(self).block()),
//@end
//@impl sv - ShortVec only=is_heap,alloc,as_ptr_stack_unchecked,as_ptr_heap_unchecked
//@fn is_heap
    ensures res == (self.cap > N),
//@fn alloc
    requires layout_of::<T>($0, count::<T>($0.bytes())) || $0.bytes() == 0,
    ensures !res.null() && (zst::<T>() || $0.bytes() != 0) ==> grown(old(vx_mem), final(vx_mem), res, if zst::<T>() { UNLIMITED } else { count::<T>($0.bytes()) }, $0.bytes() != 0),
//@fn as_ptr_stack_unchecked
    requires !self.data.on_heap(),
    ensures res == self.data.start(),
//@fn as_ptr_heap_unchecked
    requires self.data.on_heap(),
    ensures res == self.data.start(),
//@end
//@impl sv Drop ShortVec inherent
//@fn drop
    requires old(self).wf(old(vx_mem)),
    ensures only(old(vx_mem), final(vx_mem), old(self).block(), old(self).block()),
        final(vx_mem)@.contains_key(old(self).block()) ==> !final(vx_mem)@[old(self).block()].owned && unused(final(vx_mem)@[old(self).block()].cells),
//@end
//@impl sv Default ShortVec inherent
//@fn default
    requires N <= TOP, room::<T>(16),
    ensures res.wf(final(vx_mem)), res.items(final(vx_mem)) == Seq::<T>::empty(), added(old(vx_mem), final(vx_mem), res.block()),
//@end
}
/// What the parsers take the small vector to be (`shortvec.inc`), proved of the real one: the contracts above, put together
/// with the memory it lives in. What is left out is only `room`.
pub mod stack { use super::*; use super::small::*;
//@include stack.inc
#[verifier::reject_recursive_types(T)]
pub struct Stack<T, const N: usize> { sv: ShortVec<T, N>, mem: Tracked<Mem<T>> }
impl<T, const N: usize> Stack<T, N> {
    pub closed spec fn inv(&self) -> bool { self.sv.wf(&self.mem@) }
    pub closed spec fn view(&self) -> Seq<T> { self.sv.items(&self.mem@) }
    pub closed spec fn cap(&self) -> int { self.sv.cap as int }
    pub fn new(mem: Tracked<Mem<T>>) -> (r: Self)
        requires N <= TOP, room::<T>(16),
        ensures r.inv(), stack_new(r@),
    { let mut mem = mem; let sv = ShortVec::new(Tracked(mem.borrow_mut())); Self { sv, mem } }
    pub fn with_capacity(n: usize, mem: Tracked<Mem<T>>) -> (r: Self)
        requires N <= TOP, n <= N || room::<T>(n as int),
        ensures r.inv(), stack_new(r@),
    { let mut mem = mem; let sv = ShortVec::with_capacity(n, Tracked(mem.borrow_mut())); Self { sv, mem } }
    pub fn is_empty(&self) -> (r: bool)
        requires self.inv(),
        ensures stack_empty(self@, r),
    { self.sv.is_empty() }
    pub fn push(&mut self, v: T)
        requires old(self).inv(), room::<T>(2 * old(self).cap() + 16),
        ensures final(self).inv(), stack_push(old(self)@, v, final(self)@),
    { self.sv.push(v, Tracked(self.mem.borrow_mut())) }
    pub fn pop(&mut self) -> (r: Option<T>)
        requires old(self).inv(),
        ensures final(self).inv(), stack_pop(old(self)@, r, final(self)@),
    {
        let r = self.sv.pop(Tracked(self.mem.borrow_mut()));
        proof { if r is Some { assert(self@ =~= old(self)@.drop_last()); } else { assert(self@ =~= old(self)@); } }
        r
    }
}
}
}
fn main() {}
