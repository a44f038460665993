// Raw memory holding items of one type. TRUSTED: every `external_body` function of this file states
// what the pointer operation of std it stands for does and when it is allowed; `Mem` is the ghost state of
// all blocks of such memory, passed along by the extraction. A block is a row of cells, each empty or
// holding an item; reading a cell takes the item out, so that no item can be had twice, and a cell can only
// be written when it is empty, so that no item is lost. A zero-sized item has no bytes, but its cell is
// accounted for like any other.
pub mod memory {
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use std::marker::PhantomData;
pub ghost struct Block<T> {
    /// number of cells
    pub cap: int,
    pub cells: spec_fn(int) -> Option<T>,
    /// got from the allocator, to be given back
    pub owned: bool,
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Mem<T>(PhantomData<T>);
impl<T> Mem<T> {
    pub uninterp spec fn view(&self) -> Map<int, Block<T>>;
    /// `n` cells from `p` lie in one block
    pub open spec fn has(&self, p: Ptr<T>, n: int) -> bool { self@.contains_key(p.block()) && 0 <= p.at() && p.at() + n <= self@[p.block()].cap }
    pub open spec fn full(&self, p: Ptr<T>) -> bool { (self@[p.block()].cells)(p.at()) is Some }
    pub open spec fn cell(&self, p: Ptr<T>) -> T { (self@[p.block()].cells)(p.at())->0 }
    pub open spec fn all_full(&self, p: Ptr<T>, n: int) -> bool { forall|i: int| p.at() <= i < p.at() + n ==> #[trigger] (self@[p.block()].cells)(i) is Some }
    pub open spec fn all_free(&self, p: Ptr<T>, n: int) -> bool { forall|i: int| p.at() <= i < p.at() + n ==> #[trigger] (self@[p.block()].cells)(i) is None }
    /// the items in the `n` cells from `p`
    pub open spec fn row(&self, p: Ptr<T>, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| (self@[p.block()].cells)(p.at() + i)->0) }
    /// the same but for the contents of one block
    pub open spec fn changed(&self, b: int, cells: spec_fn(int) -> Option<T>) -> Map<int, Block<T>> {
        self@.insert(b, Block { cells, ..self@[b] })
    }
}
pub open spec fn put<T>(cells: spec_fn(int) -> Option<T>, at: int, v: Option<T>) -> spec_fn(int) -> Option<T> { |i: int| if i == at { v } else { cells(i) } }
pub open spec fn free<T>(cells: spec_fn(int) -> Option<T>, at: int, n: int) -> spec_fn(int) -> Option<T> { |i: int| if at <= i < at + n { None } else { cells(i) } }
/// bytes of `n` items
pub closed spec fn bytes<T>(n: int) -> int { n * vstd::layout::size_of::<T>() as int }
/// items of `n` bytes
pub closed spec fn count<T>(n: int) -> int { if vstd::layout::size_of::<T>() == 0 { 0 } else { n / (vstd::layout::size_of::<T>() as int) } }
pub broadcast proof fn bytes_count<T>(n: int)
    ensures n >= 0 ==> #[trigger] bytes::<T>(n) >= 0, zst::<T>() ==> bytes::<T>(n) == 0, !zst::<T>() ==> count::<T>(bytes::<T>(n)) == n,
        bytes::<T>(n) == 0 ==> n == 0 || zst::<T>(),
{
    let s = vstd::layout::size_of::<T>() as int;
    assert(n >= 0 ==> n * s >= 0) by (nonlinear_arith) requires s >= 0;
    assert(s != 0 ==> (n * s) / s == n) by (nonlinear_arith) requires s >= 0;
    assert(n * s == 0 ==> n == 0 || s == 0) by (nonlinear_arith);
}
pub open spec fn zst<T>() -> bool { vstd::layout::size_of::<T>() == 0 }
/// as many cells as a zero-sized type has at any address
pub spec const UNLIMITED: int = 0x1_0000_0000_0000_0000;

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ptr<T>(*mut T);
impl<T> Copy for Ptr<T> {}
impl<T> Clone for Ptr<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> Ptr<T> {
    pub uninterp spec fn block(self) -> int;
    pub uninterp spec fn at(self) -> int;
    pub uninterp spec fn null(self) -> bool;
    pub uninterp spec fn plus(self, n: int) -> Self;
    #[verifier::external_body]
    pub fn is_null(self) -> (r: bool) ensures r == self.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Self) ensures r == self.plus(n as int), r.block() == self.block(), r.at() == self.at() + n { unimplemented!() }
    #[verifier::external_body]
    pub fn sub(self, n: usize) -> (r: Self) ensures r.block() == self.block(), r.at() == self.at() - n { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, v: T, Tracked(m): Tracked<&mut Mem<T>>)
        requires old(m).has(self, 1), !old(m).full(self),
        ensures final(m)@ == old(m).changed(self.block(), put(old(m)@[self.block()].cells, self.at(), Some(v))) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, Tracked(m): Tracked<&mut Mem<T>>) -> (r: T)
        requires old(m).has(self, 1), old(m).full(self),
        ensures r == old(m).cell(self), final(m)@ == old(m).changed(self.block(), put(old(m)@[self.block()].cells, self.at(), None)) { unimplemented!() }
    // casts between raw pointers to the same items
    pub fn cast_mut(self) -> (r: Self) ensures r == self { self }
    pub fn cast_const(self) -> (r: Self) ensures r == self { self }
    pub fn drop_in_place(self, Tracked(m): Tracked<&mut Mem<T>>)
        requires old(m).has(self, 1), old(m).full(self),
        ensures final(m)@ == old(m).changed(self.block(), put(old(m)@[self.block()].cells, self.at(), None)) { let v = self.read(Tracked(m)); }
}
pub broadcast axiom fn ptr_plus<T>(p: Ptr<T>, n: int) ensures (#[trigger] p.plus(n)).block() == p.block(), p.plus(n).at() == p.at() + n;
/// `*mut [T]`, or a reference to cells that need not hold items
#[verifier::reject_recursive_types(T)]
pub struct Cells<T> { pub p: Ptr<T>, pub n: usize }
impl<T> Copy for Cells<T> {}
impl<T> Clone for Cells<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> Cells<T> {
    pub fn as_ptr(self) -> (r: Ptr<T>) ensures r == self.p { self.p }
    pub fn as_mut_ptr(self) -> (r: Ptr<T>) ensures r == self.p { self.p }
    pub fn len(self) -> (r: usize) ensures r == self.n { self.n }
    pub fn deref(self) -> (r: Cells<T>) ensures r == self { self }
    pub fn deref_mut(self) -> (r: Cells<T>) ensures r == self { self }
    pub fn vx_index(self, r: core::ops::RangeTo<usize>) -> (c: Cells<T>) requires r.end <= self.n ensures c.p == self.p, c.n == r.end { Cells { p: self.p, n: r.end } }
    pub fn vx_index_mut(self, r: core::ops::RangeTo<usize>) -> (c: CellsMut<T>) requires r.end <= self.n ensures c.0.p == self.p, c.0.n == r.end { CellsMut(Cells { p: self.p, n: r.end }) }
    pub fn as_ref<'a>(self, Tracked(m): Tracked<&mut Mem<T>>) -> (r: &'a [T])
        requires old(m).has(self.p, self.n as int), old(m).all_full(self.p, self.n as int),
        ensures *final(m) == *old(m), r@ == old(m).row(self.p, self.n as int) { slice::from_raw_parts(self.p, self.n, Tracked(m)) }
    pub fn as_mut<'a>(self, Tracked(m): Tracked<&mut Mem<T>>) -> (r: &'a mut [T])
        requires old(m).has(self.p, self.n as int), old(m).all_full(self.p, self.n as int),
        ensures *final(m) == *old(m), r@ == old(m).row(self.p, self.n as int) { slice::from_raw_parts_mut(self.p, self.n, Tracked(m)) }
}
#[verifier::reject_recursive_types(T)]
pub struct CellsMut<T>(pub Cells<T>);
/// what a reference to a row of initialised cells may be turned into
pub trait Readable<R, T>: Sized {
    spec fn cells(self) -> Cells<T>;
    spec fn shows(r: R) -> Seq<T>;
    fn turn(self, Tracked(m): Tracked<&mut Mem<T>>) -> (r: R)
        requires old(m).has(self.cells().p, self.cells().n as int), old(m).all_full(self.cells().p, self.cells().n as int),
        ensures *final(m) == *old(m), Self::shows(r) == old(m).row(self.cells().p, self.cells().n as int);
}
impl<'a, T> Readable<&'a [T], T> for Cells<T> {
    open spec fn cells(self) -> Cells<T> { self }
    open spec fn shows(r: &'a [T]) -> Seq<T> { r@ }
    fn turn(self, Tracked(m): Tracked<&mut Mem<T>>) -> (r: &'a [T]) { self.as_ref(Tracked(m)) }
}
impl<'a, T> Readable<&'a mut [T], T> for CellsMut<T> {
    open spec fn cells(self) -> Cells<T> { self.0 }
    open spec fn shows(r: &'a mut [T]) -> Seq<T> { r@ }
    fn turn(self, Tracked(m): Tracked<&mut Mem<T>>) -> (r: &'a mut [T]) { self.0.as_mut(Tracked(m)) }
}
pub mod mem {
    use super::*;
    #[verifier::external_body]
    pub fn replace<X>(d: &mut X, v: X) -> (r: X) ensures r == *old(d), *final(d) == v { core::mem::replace(d, v) }
    #[verifier::external_body]
    pub fn swap<X>(a: &mut X, b: &mut X) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
    pub fn take(d: &mut usize) -> (r: usize) ensures r == *old(d), *final(d) == 0 { replace(d, 0) }
    pub fn transmute<A: Readable<R, T>, R, T>(a: A, Tracked(m): Tracked<&mut Mem<T>>) -> (r: R)
        requires old(m).has(a.cells().p, a.cells().n as int), old(m).all_full(a.cells().p, a.cells().n as int),
        ensures *final(m) == *old(m), A::shows(r) == old(m).row(a.cells().p, a.cells().n as int) { a.turn(Tracked(m)) }
}
pub mod slice {
    use super::*;
    #[verifier::external_body]
    pub fn from_raw_parts<'a, T>(p: Ptr<T>, n: usize, Tracked(m): Tracked<&mut Mem<T>>) -> (r: &'a [T])
        requires old(m).has(p, n as int), old(m).all_full(p, n as int),
        ensures *final(m) == *old(m), r@ == old(m).row(p, n as int) { unimplemented!() }
    pub fn from_raw_parts_mut<'a, P: Row<'a>>(p: P, n: usize, Tracked(m): Tracked<&mut Mem<P::T>>) -> (r: P::Out)
        requires p.readable(old(m), n as int),
        ensures *final(m) == *old(m), p.shown(old(m), n as int, r) { p.row_mut(n, Tracked(m)) }
}
/// a pointer of which a slice can be made
pub trait Row<'a>: Sized {
    type T;
    /// what stands for the slice
    type Out;
    spec fn readable(self, m: &Mem<Self::T>, n: int) -> bool;
    spec fn shown(self, m: &Mem<Self::T>, n: int, r: Self::Out) -> bool;
    fn row_mut(self, n: usize, Tracked(m): Tracked<&mut Mem<Self::T>>) -> (r: Self::Out)
        requires self.readable(old(m), n as int),
        ensures *final(m) == *old(m), self.shown(old(m), n as int, r);
}
impl<'a, T> Row<'a> for Ptr<T> where T: 'a {
    type T = T;
    type Out = &'a mut [T];
    open spec fn readable(self, m: &Mem<T>, n: int) -> bool { m.has(self, n) && m.all_full(self, n) }
    open spec fn shown(self, m: &Mem<T>, n: int, r: &'a mut [T]) -> bool { r@ == m.row(self, n) }
    #[verifier::external_body]
    fn row_mut(self, n: usize, Tracked(m): Tracked<&mut Mem<T>>) -> (r: &'a mut [T]) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T>(T);
impl<T> MaybeUninit<T> { #[verifier::external_body] pub fn uninit() -> Self { unimplemented!() } }
/// `*mut MaybeUninit<T>`: cells that need not hold items
#[verifier::reject_recursive_types(T)]
pub struct PtrUninit<T>(pub Ptr<T>);
impl<T> PtrUninit<T> {
    pub fn add(self, n: usize) -> (r: Self) ensures r.0.block() == self.0.block(), r.0.at() == self.0.at() + n { PtrUninit(self.0.add(n)) }
}
/// `&mut [MaybeUninit<T>]`: which cells it is about
#[verifier::reject_recursive_types(T)]
pub struct Spare<T> { pub p: Ptr<T>, pub n: usize }
impl<T> Ptr<T> { pub fn vx_uninit(self) -> (r: PtrUninit<T>) ensures r.0 == self { PtrUninit(self) } }
impl<'a, T> Row<'a> for PtrUninit<T> where T: 'a {
    type T = T;
    type Out = Spare<T>;
    open spec fn readable(self, m: &Mem<T>, n: int) -> bool { m.has(self.0, n) && m.all_free(self.0, n) }
    open spec fn shown(self, m: &Mem<T>, n: int, r: Spare<T>) -> bool { r.p == self.0 && r.n == n }
    fn row_mut(self, n: usize, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Spare<T>) { Spare { p: self.0, n } }
}
pub trait Place<T>: Sized {
    spec fn first(self) -> Ptr<T>;
    spec fn count(self) -> int;
}
impl<T> Place<T> for Ptr<T> {
    open spec fn first(self) -> Ptr<T> { self }
    open spec fn count(self) -> int { 1 }
}
impl<T> Place<T> for Cells<T> {
    open spec fn first(self) -> Ptr<T> { self.p }
    open spec fn count(self) -> int { self.n as int }
}
/// a pointer from which items may be copied
pub trait Source<T>: Sized {
    spec fn can_copy(self, m: &Mem<T>, dst: Ptr<T>, n: int) -> bool;
    spec fn copied(self, m0: &Mem<T>, dst: Ptr<T>, n: int, m1: &Mem<T>) -> bool;
    fn copy_to(self, dst: Ptr<T>, n: usize, Tracked(m): Tracked<&mut Mem<T>>)
        requires self.can_copy(old(m), dst, n as int),
        ensures self.copied(old(m), dst, n as int, final(m));
}
impl<T> Source<T> for Ptr<T> {
    open spec fn can_copy(self, m: &Mem<T>, dst: Ptr<T>, n: int) -> bool {
        m.has(self, n) && m.has(dst, n) && m.all_free(dst, n) && self.block() != dst.block()
    }
    open spec fn copied(self, m0: &Mem<T>, dst: Ptr<T>, n: int, m1: &Mem<T>) -> bool {
        m1@ == m0@
            .insert(self.block(), Block { cells: free(m0@[self.block()].cells, self.at(), n), ..m0@[self.block()] })
            .insert(dst.block(), Block { cells: |i: int| if dst.at() <= i < dst.at() + n { (m0@[self.block()].cells)(i - dst.at() + self.at()) } else { (m0@[dst.block()].cells)(i) }, ..m0@[dst.block()] })
    }
    #[verifier::external_body]
    fn copy_to(self, dst: Ptr<T>, n: usize, Tracked(m): Tracked<&mut Mem<T>>) { unimplemented!() }
}
/// a pointer to the first item of a slice of plain data, while the slice is borrowed
pub struct Behind<'a, T>(pub &'a [T]);
impl<'a, T: Copy> Source<T> for Behind<'a, T> {
    open spec fn can_copy(self, m: &Mem<T>, dst: Ptr<T>, n: int) -> bool { n <= self.0@.len() && m.has(dst, n) && m.all_free(dst, n) }
    open spec fn copied(self, m0: &Mem<T>, dst: Ptr<T>, n: int, m1: &Mem<T>) -> bool {
        m1@ == m0.changed(dst.block(), |i: int| if dst.at() <= i < dst.at() + n { Some(self.0@[i - dst.at()]) } else { (m0@[dst.block()].cells)(i) })
    }
    #[verifier::external_body]
    fn copy_to(self, dst: Ptr<T>, n: usize, Tracked(m): Tracked<&mut Mem<T>>) { unimplemented!() }
}
pub trait SlicePtr<T> { spec fn all(&self) -> Seq<T>; fn as_ptr(&self) -> (r: Behind<'_, T>) ensures r.0@ == self.all(); }
impl<T, const N: usize> SlicePtr<T> for [T; N] {
    open spec fn all(&self) -> Seq<T> { self@ }
    fn as_ptr(&self) -> (r: Behind<'_, T>) { Behind(vstd::slice::slice_subrange(vstd::array::array_as_slice(self), 0, N)) }
}
pub mod ptr {
    use super::*;
    pub fn slice_from_raw_parts<T>(p: Ptr<T>, n: usize) -> (r: Cells<T>) ensures r.p == p, r.n == n { Cells { p, n } }
    pub fn slice_from_raw_parts_mut<T>(p: Ptr<T>, n: usize) -> (r: Cells<T>) ensures r.p == p, r.n == n { Cells { p, n } }
    #[verifier::external_body]
    pub fn drop_in_place<P: Place<T>, T>(p: P, Tracked(m): Tracked<&mut Mem<T>>)
        requires old(m).has(p.first(), p.count()), old(m).all_full(p.first(), p.count()),
        ensures final(m)@ == old(m).changed(p.first().block(), free(old(m)@[p.first().block()].cells, p.first().at(), p.count())),
    { unimplemented!() }
    /// the items move from `src` to `dst`, or are copied out of a slice
    pub fn copy_nonoverlapping<S: Source<T>, T>(src: S, dst: Ptr<T>, n: usize, Tracked(m): Tracked<&mut Mem<T>>)
        requires src.can_copy(old(m), dst, n as int),
        ensures src.copied(old(m), dst, n as int, final(m)) { src.copy_to(dst, n, Tracked(m)) }
    pub fn write<T>(p: Ptr<T>, v: T, Tracked(m): Tracked<&mut Mem<T>>)
        requires old(m).has(p, 1), !old(m).full(p),
        ensures final(m)@ == old(m).changed(p.block(), put(old(m)@[p.block()].cells, p.at(), Some(v))) { p.write(v, Tracked(m)) }
    pub fn read<T>(p: Ptr<T>, Tracked(m): Tracked<&mut Mem<T>>) -> (r: T)
        requires old(m).has(p, 1), old(m).full(p),
        ensures r == old(m).cell(p), final(m)@ == old(m).changed(p.block(), put(old(m)@[p.block()].cells, p.at(), None)) { p.read(Tracked(m)) }
}
}
pub use memory::*;
