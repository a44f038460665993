//@file sc crates/parcom-sequence-core/src/lib.rs
//@mem request_writer finish next
//@erase Next = Fut<<$1 as SequenceControl>::Result>
//@include writer.inc
//@include memfns.inc
pub mod controls { use super::*;
//@memtype Mem<Self::Item>
//@trait sc SequenceControl
//@inject
    /// the control can be used
    spec fn ready(&self, m: &Mem<Self::Item>) -> bool;
    /// a request for room for `n` items is granted
    spec fn grants(&self, n: int) -> bool;
    /// asked for `n` items it may give the writer `w`
    #[verifier::prophetic]
    spec fn opened(&self, n: int, m0: &Mem<Self::Item>, w: Self::Writer, m1: &Mem<Self::Item>) -> bool;
    /// told of an error, or of the end, it may answer `res`
    #[verifier::prophetic]
    spec fn refused(&self, m0: &Mem<Self::Item>, err: Self::Error, m1: &Mem<Self::Item>, res: Self::Result) -> bool;
    #[verifier::prophetic]
    spec fn finished(&self, m0: &Mem<Self::Item>, m1: &Mem<Self::Item>, res: Self::Result) -> bool;
//@fn request_writer
    requires self.ready(old(vx_mem)), self.grants($0 as int),
    ensures self.opened($0 as int, old(vx_mem), res, final(vx_mem)), res.sound(), res.buf().wf(final(vx_mem)), res.outside(final(vx_mem)),
        res.buf().written == 0, res.buf().cap >= $0,
//@fn cancel
    requires self.ready(old(vx_mem)),
    ensures self.refused(old(vx_mem), $0, final(vx_mem), res),
//@fn finish
    requires self.ready(old(vx_mem)),
    ensures self.finished(old(vx_mem), final(vx_mem), res),
//@end
}
pub use controls::*;
pub mod acts { use super::*;
/// what a source does with a control in one step
pub ghost enum Act<T, E> {
    /// cancel the control
    Refuse(E),
    Finish,
    /// request a writer for so many items, write these, and complete the write
    Write(int, Seq<T>),
    /// the same, but cancel the write
    Fail(int, Seq<T>, E),
}
/// `w` is the writer `w0` after `items` were written
#[verifier::prophetic]
pub open spec fn wrote<W: BufferWriter>(w0: W, m0: &Mem<W::Item>, items: Seq<W::Item>, w: W, m1: &Mem<W::Item>) -> bool {
    &&& w.sound() && w.kin(&w0) && w.buf().same(w0.buf()) && w.buf().wf(m1) && w.outside(m1)
    &&& only_within(m0, m1, w0.buf()) && w.buf().items(m1) == items
}
/// `c`, of which a source does `a`, answers `res`
#[verifier::prophetic]
pub open spec fn did<C: SequenceControl>(c: C, m0: &Mem<C::Item>, a: Act<C::Item, C::Error>, m1: &Mem<C::Item>, res: C::Result) -> bool {
    match a {
        Act::Refuse(e) => c.refused(m0, e, m1, res),
        Act::Finish => c.finished(m0, m1, res),
        Act::Write(n, items) => did_advance(c, m0, n, items, m1, res),
        Act::Fail(n, items, e) => did_abort(c, m0, n, items, e, m1, res),
    }
}
#[verifier::prophetic]
pub open spec fn did_advance<C: SequenceControl>(c: C, m0: &Mem<C::Item>, n: int, items: Seq<C::Item>, m1: &Mem<C::Item>, res: C::Result) -> bool {
    exists|w0: C::Writer, ma: &Mem<C::Item>, w: C::Writer, mb: &Mem<C::Item>|
        #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n && #[trigger] wrote(w0, ma, items, w, mb) && w.advanced(mb, m1, res)
}
#[verifier::prophetic]
pub open spec fn did_abort<C: SequenceControl>(c: C, m0: &Mem<C::Item>, n: int, items: Seq<C::Item>, e: C::Error, m1: &Mem<C::Item>, res: C::Result) -> bool {
    exists|w0: C::Writer, ma: &Mem<C::Item>, w: C::Writer, mb: &Mem<C::Item>|
        #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n && #[trigger] wrote(w0, ma, items, w, mb) && w.cancelled(mb, e, m1, res)
}
}
pub use acts::*;
pub mod sources { use super::*;
//@trait sc SequenceSource
//@inject
    /// the source is in order
    spec fn fit(self) -> bool;
    /// a step may ask for room for `n` items
    spec fn asks(n: int) -> bool;
    /// a step may do `a` and leave the source as `after`
    spec fn gives(self, a: Act<Self::Item, Self::Error>, after: Self) -> bool;
//@fn next
    requires old(self).fit(), control.ready(old(vx_mem)), forall|n: int| #[trigger] Self::asks(n) ==> 0 <= n <= usize::MAX && control.grants(n),
    ensures final(self).fit(), exists|a: Act<Self::Item, Self::Error>| old(self).gives(a, *final(self)) && #[trigger] did(control, old(vx_mem), a, final(vx_mem), res.out()),
//@end
}
pub use sources::*;
