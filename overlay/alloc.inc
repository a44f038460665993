// The allocator and the storage of a small vector. TRUSTED, like mem.inc.
pub mod heap {
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use super::memory::*;
#[verifier::external_body]
#[derive(Debug)]
pub struct LayoutError(());
#[verifier::external_body]
pub struct Layout(usize, usize);
impl Copy for Layout {}
impl Clone for Layout { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// the layout of `n` items
pub open spec fn layout_of<T>(l: Layout, n: int) -> bool { l.bytes() == bytes::<T>(n) && l.aligned::<T>() }
/// `n` items may be allocated
pub uninterp spec fn fits<T>(n: int) -> bool;
pub broadcast axiom fn fits_less<T>(n: int, k: int) requires #[trigger] fits::<T>(n), 0 <= k <= n ensures #[trigger] fits::<T>(k);
impl Layout {
    pub uninterp spec fn bytes(self) -> int;
    pub uninterp spec fn aligned<T>(self) -> bool;
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn array<T>(n: usize) -> (r: Result<Layout, LayoutError>)
        ensures r is Ok <==> fits::<T>(n as int), r matches Ok(l) ==> layout_of::<T>(l, n as int) { unimplemented!() }
}
/// `b` is not a block
pub open spec fn fresh<T>(m: &Mem<T>, b: int) -> bool { !m@.contains_key(b) }
pub open spec fn unused<T>(cells: spec_fn(int) -> Option<T>) -> bool { forall|i: int| #[trigger] cells(i) is None }
/// the memory with a new block
pub open spec fn grown<T>(m0: &Mem<T>, m1: &Mem<T>, p: Ptr<T>, cap: int, owned: bool) -> bool {
    &&& fresh(m0, p.block())
    &&& p.at() == 0 && !p.null()
    &&& m1@.contains_key(p.block()) && m1@ == m0@.insert(p.block(), m1@[p.block()])
    &&& m1@[p.block()].cap == cap && m1@[p.block()].owned == owned && unused(m1@[p.block()].cells)
}
/// the start of a block got from the allocator with this layout
pub open spec fn allocated<T>(m: &Mem<T>, p: Ptr<T>, l: Layout) -> bool {
    &&& m@.contains_key(p.block()) && p.at() == 0
    &&& m@[p.block()].owned && layout_of::<T>(l, m@[p.block()].cap)
}
pub mod alloc {
    use super::*;
    #[verifier::external_body]
    pub fn alloc<T>(l: Layout, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Ptr<T>)
        requires l.bytes() != 0, layout_of::<T>(l, count::<T>(l.bytes())),
        ensures r.null() ==> final(m)@ == old(m)@, !r.null() ==> grown(old(m), final(m), r, count::<T>(l.bytes()), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn realloc<T>(p: Ptr<T>, l: Layout, n: usize, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Ptr<T>)
        requires allocated(old(m), p, l), n != 0, bytes::<T>(count::<T>(n as int)) == n,
        ensures r.null() ==> final(m)@ == old(m)@,
            !r.null() ==> {
                &&& r.at() == 0 && (r.block() == p.block() || fresh(old(m), r.block()))
                &&& final(m)@ == old(m)@.remove(p.block()).insert(r.block(), Block { cap: count::<T>(n as int), owned: true,
                    cells: |i: int| if i < count::<T>(n as int) { (old(m)@[p.block()].cells)(i) } else { None } })
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dealloc<T>(p: Ptr<T>, l: Layout, Tracked(m): Tracked<&mut Mem<T>>)
        requires allocated(old(m), p, l), unused(old(m)@[p.block()].cells),
        ensures final(m)@ == old(m)@.remove(p.block()) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_alloc_error<R>(l: Layout) -> (r: R) ensures false { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct NonNull<T>(pub Ptr<T>);
impl<T> Copy for NonNull<T> {}
impl<T> Clone for NonNull<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> NonNull<T> {
    pub fn new(p: Ptr<T>) -> (r: Option<NonNull<T>>) ensures r == (if p.null() { None } else { Some(NonNull(p)) }) { if p.is_null() { None } else { Some(NonNull(p)) } }
    pub fn as_ptr(self) -> (r: Ptr<T>) ensures r == self.0 { self.0 }
    /// a well aligned address: as good as memory for zero-sized items, useless for others
    #[verifier::external_body]
    pub fn dangling(Tracked(m): Tracked<&mut Mem<T>>) -> (r: NonNull<T>)
        ensures zst::<T>() ==> grown(old(m), final(m), r.0, UNLIMITED, false), !zst::<T>() ==> final(m)@ == old(m)@ && !r.0.null() { unimplemented!() }
    pub fn slice_from_raw_parts(p: NonNull<T>, n: usize) -> (r: Cells<T>) ensures r.p == p.0, r.n == n { Cells { p: p.0, n } }
}
pub struct ManuallyDrop;
impl ManuallyDrop { pub fn new<X>(x: X) -> (r: X) ensures r == x { x } }
pub mod array {
    use super::*;
    #[verifier::external_body]
    pub fn from_fn<T, const N: usize, F: Fn(usize) -> MaybeUninit<T>>(f: F) -> (r: [MaybeUninit<T>; N]) { unimplemented!() }
}
/// Stands for the union of inline storage and heap pointer. The inline cells are a block of their own, which
/// lives as long as the storage does; writing the heap pointer overwrites it.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ShortVecData<T, const N: usize>(T);
impl<T, const N: usize> ShortVecData<T, N> {
    pub uninterp spec fn on_heap(&self) -> bool;
    /// the heap pointer, or the first inline cell
    pub uninterp spec fn start(&self) -> Ptr<T>;
    #[verifier::external_body]
    pub fn vx_from_stack(s: [MaybeUninit<T>; N], Tracked(m): Tracked<&mut Mem<T>>) -> (r: Self)
        ensures !r.on_heap(), grown(old(m), final(m), r.start(), N as int, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from_heap(p: NonNull<T>, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Self) ensures r.on_heap(), r.start() == p.0, final(m)@ == old(m)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_heap(&self) -> (r: NonNull<T>) requires self.on_heap() ensures r.0 == self.start() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_stack(&self) -> (r: Cells<T>) requires !self.on_heap() ensures r.p == self.start(), r.n == N { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set_heap(&mut self, p: NonNull<T>, Tracked(m): Tracked<&mut Mem<T>>)
        requires !old(self).on_heap() ==> unused(old(m)@[old(self).start().block()].cells),
        ensures final(self).on_heap(), final(self).start() == p.0,
            final(m)@ == (if old(self).on_heap() { old(m)@ } else { old(m)@.remove(old(self).start().block()) }) { unimplemented!() }
}
}
pub use heap::*;
