//@file bw crates/parcom-sequence-core/src/buffer_writer.rs
//@rawptr
//@local ptr slice mem
//@mem write read as_ref as_mut transmute drop_in_place copy_nonoverlapping copy from_raw_parts from_raw_parts_mut
//@mem set_len as_slice as_mut_slice spare_capacity push_item shrink_to advance cancel
//@include mem.inc
/// what refuses the calls that a contract allows to be refused
pub mod refusals { use super::*;
#[verifier::external_body]
pub fn vx_refuse<T>(Ghost(c): Ghost<bool>) -> T requires c, ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vx_refuse_unless(Ghost(c): Ghost<bool>, b: bool) requires c || b, ensures b {}
/// TRUSTED: std's `unwrap` and `expect`
pub trait Unwraps<T>: Sized {
    spec fn got(self) -> Option<T>;
    fn vx_unwrap(self, Ghost(c): Ghost<bool>) -> (v: T) requires c || self.got() is Some, ensures self.got() == Some(v);
}
impl<T> Unwraps<T> for Option<T> {
    open spec fn got(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_unwrap(self, Ghost(c): Ghost<bool>) -> (v: T) { match self { Some(v) => v, None => vx_refuse(Ghost(c)) } }
}
impl<T, E> Unwraps<T> for Result<T, E> {
    open spec fn got(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body] fn vx_unwrap(self, Ghost(c): Ghost<bool>) -> (v: T) { match self { Ok(v) => v, Err(_) => vx_refuse(Ghost(c)) } }
}
}
pub use refusals::*;
pub mod buffer_writer { use super::*;
broadcast use memory::ptr_plus;
//@memtype Mem<Self::Item>
//@trait bw BufferWriter
//@inject
    spec fn buf(&self) -> Buf<Self::Item>;
    /// the same writer, except that the number of written items may differ
    #[verifier::prophetic]
    spec fn kin(&self, o: &Self) -> bool;
    /// the parts of the writer fit together
    spec fn sound(&self) -> bool;
    /// what the writer has to do with other than its cells is in order
    spec fn outside(&self, m: &Mem<Self::Item>) -> bool;
    /// completing the write may turn the memory into `m1` and answer `res`
    #[verifier::prophetic]
    spec fn advanced(&self, m0: &Mem<Self::Item>, m1: &Mem<Self::Item>, res: Self::Result) -> bool;
    /// so may cancelling it
    #[verifier::prophetic]
    spec fn cancelled(&self, m0: &Mem<Self::Item>, err: Self::Error, m1: &Mem<Self::Item>, res: Self::Result) -> bool;
    proof fn laws()
        ensures forall|a: &Self| #[trigger] a.kin(a),
            forall|a: &Self, b: &Self, c: &Self| #[trigger] a.kin(b) && #[trigger] b.kin(c) ==> a.kin(c),
            forall|a: &Self, b: &Self, m: &Mem<Self::Item>| #[trigger] a.kin(b) && #[trigger] b.outside(m) ==> a.outside(m),
            forall|a: &Self, m0: &Mem<Self::Item>, m1: &Mem<Self::Item>| #[trigger] a.outside(m0) && only_within(m0, m1, a.buf()) ==> #[trigger] a.outside(m1);
//@fn capacity
    requires self.sound(),
    ensures res == self.buf().cap,
//@fn len
    requires self.sound(),
    ensures res == self.buf().written,
//@fn as_ptr
    requires self.sound(),
    ensures res == self.buf().start,
//@fn as_mut_ptr
    requires old(self).sound(),
    ensures final(self).sound(), res == old(self).buf().start, final(self).kin(old(self)), final(self).buf() == old(self).buf(),
//@fn set_len
    requires old(self).sound(), old(self).outside(old(vx_mem)), 0 <= $0 <= old(self).buf().cap, old(vx_mem).has(old(self).buf().start, old(self).buf().cap),
        old(vx_mem).all_full(old(self).buf().start, $0 as int),
    ensures final(self).kin(old(self)), final(self).buf().same(old(self).buf()), final(self).buf().written == $0, final(self).sound(), *final(vx_mem) == *old(vx_mem),
//@fn as_slice
    requires self.sound(), self.buf().wf(old(vx_mem)),
    ensures res@ == self.buf().items(old(vx_mem)), *final(vx_mem) == *old(vx_mem),
//@fn as_mut_slice
    requires old(self).sound(), old(self).buf().wf(old(vx_mem)),
    ensures res@ == old(self).buf().items(old(vx_mem)), *final(vx_mem) == *old(vx_mem), final(self).sound(), final(self).kin(old(self)), final(self).buf() == old(self).buf(),
//@fn spare_capacity
    requires old(self).sound(), old(self).buf().wf(old(vx_mem)),
    ensures *final(vx_mem) == *old(vx_mem), final(self).sound(), final(self).kin(old(self)), final(self).buf() == old(self).buf(),
        res.n == old(self).buf().cap - old(self).buf().written,
        res.p.block() == old(self).buf().start.block(), res.p.at() == old(self).buf().start.at() + old(self).buf().written,
//@fn push_item
    requires old(self).sound(), old(self).buf().wf(old(vx_mem)), old(self).outside(old(vx_mem)),
    ensures final(self).sound(), final(self).buf().wf(final(vx_mem)), final(self).outside(final(vx_mem)), final(self).kin(old(self)), final(self).buf().same(old(self).buf()),
        only_within(old(vx_mem), final(vx_mem), old(self).buf()),
        match res {
            Ok(()) => old(self).buf().written < old(self).buf().cap && final(self).buf().items(final(vx_mem)) == old(self).buf().items(old(vx_mem)).push($0),
            Err(v) => v == $0 && old(self).buf().written == old(self).buf().cap && final(self).buf().items(final(vx_mem)) == old(self).buf().items(old(vx_mem)),
        },
//@head
    proof { Self::laws(); }
//@fn shrink_to
    requires old(self).sound(), old(self).buf().wf(old(vx_mem)), old(self).outside(old(vx_mem)),
    ensures $0 <= old(self).buf().written, final(self).sound(), final(self).buf().wf(final(vx_mem)), final(self).outside(final(vx_mem)), final(self).kin(old(self)), final(self).buf().same(old(self).buf()),
        only_within(old(vx_mem), final(vx_mem), old(self).buf()),
        final(self).buf().items(final(vx_mem)) == old(self).buf().items(old(vx_mem)).take($0 as int),
//@head
    let ghost vx_refusal = $0 > old(self).buf().written;
    proof { Self::laws(); }
//@fn advance
    requires self.sound(), self.buf().wf(old(vx_mem)), self.outside(old(vx_mem)),
    ensures self.advanced(old(vx_mem), final(vx_mem), res),
//@fn cancel
    requires self.sound(), self.buf().wf(old(vx_mem)), self.outside(old(vx_mem)),
    ensures self.cancelled(old(vx_mem), $0, final(vx_mem), res),
//@end
}
pub mod frames { use super::*;
/// the buffer behind a writer
#[verifier::reject_recursive_types(T)]
pub ghost struct Buf<T> {
    /// the first cell
    pub start: Ptr<T>,
    pub cap: int,
    pub written: int,
}
impl<T> Buf<T> {
    /// the buffer is in the memory and holds exactly the written items
    pub open spec fn wf(self, m: &Mem<T>) -> bool {
        &&& 0 <= self.written <= self.cap <= usize::MAX
        &&& m.has(self.start, self.cap)
        &&& m.all_full(self.start, self.written)
        &&& forall|i: int| self.start.at() + self.written <= i < self.start.at() + self.cap ==> #[trigger] (m@[self.start.block()].cells)(i) is None
    }
    pub open spec fn items(self, m: &Mem<T>) -> Seq<T> { m.row(self.start, self.written) }
    pub open spec fn same(self, o: Self) -> bool { self.cap == o.cap && self.start == o.start }
}
/// nothing but the cells of the buffer `b` changed
pub open spec fn only_within<T>(m0: &Mem<T>, m1: &Mem<T>, b: Buf<T>) -> bool {
    m1@ == m0@ || {
        &&& m0@.contains_key(b.start.block()) && m1@ == m0@.insert(b.start.block(), Block { cells: m1@[b.start.block()].cells, ..m0@[b.start.block()] })
        &&& forall|i: int| !(b.start.at() <= i < b.start.at() + b.cap) ==> #[trigger] (m1@[b.start.block()].cells)(i) == (m0@[b.start.block()].cells)(i)
    }
}
}
pub use buffer_writer::*;
pub use frames::*;
pub proof fn within_trans<T>(m0: &Mem<T>, m1: &Mem<T>, m2: &Mem<T>, b: Buf<T>)
    requires only_within(m0, m1, b), only_within(m1, m2, b), ensures only_within(m0, m2, b)
{
    let k = b.start.block();
    if m1@ != m0@ && m2@ != m1@ { assert(m2@ =~= m0@.insert(k, Block { cells: m2@[k].cells, ..m0@[k] })); }
}
