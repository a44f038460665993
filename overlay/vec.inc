/// std's vector, its contents in the ghost memory. TRUSTED. (A vector that is dropped keeps its block.)
pub mod vecs { use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vec<T>(T);
impl<T> Vec<T> {
    /// its first cell
    pub uninterp spec fn start(&self) -> Ptr<T>;
    pub uninterp spec fn cap(&self) -> int;
    pub uninterp spec fn count(&self) -> int;
    /// its items, once nobody can change it any more
    pub uninterp spec fn fixed(&self) -> Seq<T>;
    pub open spec fn all(&self) -> Buf<T> { Buf { start: self.start(), cap: self.cap(), written: self.count() } }
    pub open spec fn wf(&self, m: &Mem<T>) -> bool { self.all().wf(m) && self.start().at() == 0 }
    pub open spec fn items(&self, m: &Mem<T>) -> Seq<T> { m.row(self.start(), self.count()) }
    pub open spec fn block(&self) -> int { self.start().block() }
    #[verifier::external_body]
    pub fn new(Tracked(m): Tracked<&mut Mem<T>>) -> (r: Self)
        ensures r.count() == 0, 0 <= r.cap() <= usize::MAX, added(old(m), final(m), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Self)
        ensures r.count() == 0, n <= r.cap() <= usize::MAX, added(old(m), final(m), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.count() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: Ptr<T>) ensures r == self.start() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&mut self) -> (r: Ptr<T>) ensures r == old(self).start(), *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: usize, Tracked(m): Tracked<&mut Mem<T>>)
        requires n <= old(self).cap(), old(m).has(old(self).start(), old(self).cap()), old(m).all_full(old(self).start(), n as int),
        ensures *final(m) == *old(m), final(self).start() == old(self).start(), final(self).cap() == old(self).cap(), final(self).count() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize, Tracked(m): Tracked<&mut Mem<T>>)
        requires old(self).wf(old(m)),
        ensures final(self).start() == old(self).start(), final(self).cap() == old(self).cap(), final(self).count() == (if n < old(self).count() { n as int } else { old(self).count() }),
            final(self).wf(final(m)), final(self).items(final(m)) == old(self).items(old(m)).take(final(self).count()),
            only_within(old(m), final(m), old(self).all()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self, Tracked(m): Tracked<&mut Mem<T>>)
        requires old(self).wf(old(m)),
        ensures final(self).start() == old(self).start(), final(self).cap() == old(self).cap(), final(self).count() == 0,
            final(self).wf(final(m)), only_within(old(m), final(m), old(self).all()) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_at(&self, n: usize) -> (r: (&[T], &[T]))
        requires n <= self.fixed().len(),
        ensures r.0@ == self.fixed().take(n as int), r.1@ == self.fixed().skip(n as int) { unimplemented!() }
    /// a part of a vector that cannot be changed any more
    #[verifier::external_body]
    pub fn vx_index(&self, r: core::ops::RangeFrom<usize>) -> (s: &[T])
        requires r.start <= self.fixed().len(),
        ensures s@ == self.fixed().skip(r.start as int) { unimplemented!() }
}
/// the memory with the block of a new vector
pub open spec fn added<T>(m0: &Mem<T>, m1: &Mem<T>, v: Vec<T>) -> bool {
    &&& !m0@.contains_key(v.block()) && v.start().at() == 0
    &&& m1@.contains_key(v.block()) && m1@ == m0@.insert(v.block(), m1@[v.block()])
    &&& m1@[v.block()].cap == v.cap() && forall|i: int| #[trigger] (m1@[v.block()].cells)(i) is None
}
/// the count of a fixed vector is that of its items
pub broadcast axiom fn fixed_count<T>(v: Vec<T>) ensures (#[trigger] v.fixed()).len() == v.count();
}
pub use vecs::*;
