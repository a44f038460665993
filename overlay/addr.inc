// Where slices and texts lie in memory. TRUSTED: the specifications of the std functions that slice them and that
// give their addresses.
pub mod addrs { use super::*; use vstd::std_specs::range::ContainsSpec;
/// Stands for `[T]`: slices here differ not only in what they show but also in where they lie (Verus takes slices
/// showing the same items to be equal).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[repr(transparent)]
pub struct Slice<T>([T]);
impl<T> Slice<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.0.len() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.0.is_empty() }
    pub fn split_at(&self, n: usize) -> (r: (&Self, &Self))
        requires n <= self@.len(), ensures self.part_is(0, n as int, r.0), self.part_is(n as int, self.size(), r.1) { self.vx_split_at(n) }
    pub fn split_at_checked(&self, n: usize) -> (r: Option<(&Self, &Self)>)
        ensures match r { Some((a, b)) => n <= self@.len() && self.part_is(0, n as int, a) && self.part_is(n as int, self.size(), b), None => n > self@.len() } { self.vx_split_at_checked(n) }
    #[verifier::external_body] pub fn as_ptr(&self) -> (p: *const T) ensures p@.addr as int == addr(self) { self.0.as_ptr() }
    #[verifier::external_body] pub fn as_ptr_range(&self) -> (p: std::ops::Range<*const T>)
        ensures p.start@.addr as int == addr(self), p.end@.addr as int == addr(self) + self@.len() * vstd::layout::size_of::<T>() { self.0.as_ptr_range() }
}
/// the address of the first item
pub uninterp spec fn addr<T: ?Sized>(s: &T) -> int;
pub trait Bounds { spec fn lo(&self) -> int; spec fn hi(&self, len: int) -> int; }
impl Bounds for std::ops::RangeFrom<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, len: int) -> int { len } }
impl Bounds for std::ops::RangeTo<usize> { open spec fn lo(&self) -> int { 0 } open spec fn hi(&self, len: int) -> int { self.end as int } }
impl Bounds for std::ops::Range<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, len: int) -> int { self.end as int } }
impl Bounds for std::ops::RangeFull { open spec fn lo(&self) -> int { 0 } open spec fn hi(&self, len: int) -> int { len } }
pub trait Lies {
    /// `r` is the part `lo .. hi` of `self`
    spec fn part_is(&self, lo: int, hi: int, r: &Self) -> bool;
    spec fn part_ok(&self, lo: int, hi: int) -> bool;
    spec fn size(&self) -> int;
    fn vx_index<I: Bounds>(&self, i: I) -> (r: &Self)
        requires self.part_ok(i.lo(), i.hi(self.size())), ensures self.part_is(i.lo(), i.hi(self.size()), r);
    fn vx_get<I: Bounds>(&self, i: I) -> (r: Option<&Self>)
        ensures match r { Some(r) => self.part_ok(i.lo(), i.hi(self.size())) && self.part_is(i.lo(), i.hi(self.size()), r), None => !self.part_ok(i.lo(), i.hi(self.size())) };
    fn vx_split_at(&self, n: usize) -> (r: (&Self, &Self))
        requires self.part_ok(0, n as int), ensures self.part_is(0, n as int, r.0), self.part_is(n as int, self.size(), r.1);
    fn vx_split_at_checked(&self, n: usize) -> (r: Option<(&Self, &Self)>)
        ensures match r { Some((a, b)) => self.part_ok(0, n as int) && self.part_is(0, n as int, a) && self.part_is(n as int, self.size(), b), None => !self.part_ok(0, n as int) };
}
impl<T> Lies for Slice<T> {
    open spec fn size(&self) -> int { self@.len() as int }
    open spec fn part_ok(&self, lo: int, hi: int) -> bool { 0 <= lo <= hi <= self@.len() }
    open spec fn part_is(&self, lo: int, hi: int, r: &Self) -> bool { r@ == self@.subrange(lo, hi) && addr(r) == addr(self) + lo * vstd::layout::size_of::<T>() }
    #[verifier::external_body] fn vx_index<I: Bounds>(&self, i: I) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body] fn vx_get<I: Bounds>(&self, i: I) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, n: usize) -> (r: (&Self, &Self)) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at_checked(&self, n: usize) -> (r: Option<(&Self, &Self)>) { unimplemented!() }
}
impl Lies for str {
    open spec fn size(&self) -> int { self.spec_bytes().len() as int }
    open spec fn part_ok(&self, lo: int, hi: int) -> bool { 0 <= lo <= hi <= self.spec_bytes().len() && is_char_boundary(self.spec_bytes(), lo) && is_char_boundary(self.spec_bytes(), hi) }
    open spec fn part_is(&self, lo: int, hi: int, r: &Self) -> bool { r.spec_bytes() == self.spec_bytes().subrange(lo, hi) && addr(r) == addr(self) + lo }
    #[verifier::external_body] fn vx_index<I: Bounds>(&self, i: I) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body] fn vx_get<I: Bounds>(&self, i: I) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, n: usize) -> (r: (&Self, &Self)) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at_checked(&self, n: usize) -> (r: Option<(&Self, &Self)>) { unimplemented!() }
}
pub trait Bytes { fn vx_as_bytes(&self) -> (r: &Slice<u8>); }
impl Bytes for str {
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &Slice<u8>) ensures r@ == self.spec_bytes(), addr(r) == addr(self) { unimplemented!() }
}
pub assume_specification[str::as_ptr](s: &str) -> (p: *const u8) ensures p@.addr as int == addr(s);
/// TRUSTED: thin pointers compare by address
pub broadcast axiom fn ptr_cmp<T>(a: *const T, b: *const T)
    ensures <*const T as PartialOrdSpec>::obeys_partial_cmp_spec(), #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b)
        == Some(if a@.addr < b@.addr { core::cmp::Ordering::Less } else if a@.addr == b@.addr { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater });
pub broadcast axiom fn ptr_eq<T>(a: *const T, b: *const T)
    ensures <*const T as PartialEqSpec>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@.addr == b@.addr);
pub broadcast axiom fn ptr_ranges<T>()
    ensures #[trigger] <std::ops::Range<*const T> as ContainsSpec<*const T, *const T>>::obeys_contains();
pub broadcast axiom fn ptr_in<T>(r: std::ops::Range<*const T>, a: &*const T)
    ensures #[trigger] <std::ops::Range<*const T> as ContainsSpec<*const T, *const T>>::contains_spec(&r, a) == (r.start@.addr <= a@.addr < r.end@.addr);
pub broadcast axiom fn ptr_ranges_closed<T>()
    ensures #[trigger] <std::ops::RangeInclusive<*const T> as ContainsSpec<*const T, *const T>>::obeys_contains();
pub broadcast axiom fn ptr_in_closed<T>(r: std::ops::RangeInclusive<*const T>, a: &*const T)
    ensures #[trigger] <std::ops::RangeInclusive<*const T> as ContainsSpec<*const T, *const T>>::contains_spec(&r, a) == (r@.start@.addr <= a@.addr <= r@.end@.addr);
pub broadcast group pointers { ptr_cmp, ptr_eq, ptr_ranges, ptr_in, ptr_ranges_closed, ptr_in_closed }
}
pub use addrs::*;
