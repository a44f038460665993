//@include prims.inc
//@file measured crates/parcom-core/src/sequence/measured.rs
//@trait measured Meter
//@assoc
type Metrics;
//@inject
    /// `b` has metered what `a` has and then `segment`
    spec fn metered(a: Self, segment: &S, b: Self) -> bool where Self: Sized;
    /// the counts are large enough for `segment`
    spec fn room(&self, segment: &S) -> bool where Self: Sized;
    /// `m` are the metrics of what was metered
    spec fn reads(&self, m: Self::Metrics) -> bool;
//@fn advance
    requires self.room($0),
    ensures Self::metered(self, $0, res),
//@fn metrics
    ensures self.reads(res),
//@end
//@trait measured Metrics
//@end
pub mod meters { use super::*;
/// `b` has metered what `a` has and then the segments `ps`
pub open spec fn went<G: ?Sized + SequenceSegment, M: Meter<G>>(a: M, ps: Seq<&G>, b: M) -> bool decreases ps.len() {
    if ps.len() == 0 { a == b } else { exists|m: M| went(a, ps.drop_last(), m) && #[trigger] M::metered(m, ps.last(), b) }
}
/// the segments put together
pub open spec fn content<G: ?Sized + SequenceSegment>(ps: Seq<&G>) -> Seq<G::Item> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { content(ps.drop_last()) + ps.last().items() }
}
/// `b` has metered what `a` has and then exactly the items `s`, each once
pub open spec fn measured<G: ?Sized + SequenceSegment, M: Meter<G>>(a: M, s: Seq<G::Item>, b: M) -> bool {
    exists|ps: Seq<&G>| #[trigger] went(a, ps, b) && content(ps) == s
}
pub proof fn went_add<G: ?Sized + SequenceSegment, M: Meter<G>>(a: M, ps: Seq<&G>, b: M, qs: Seq<&G>, c: M)
    requires went(a, ps, b), went(b, qs, c), ensures went(a, ps + qs, c), content(ps + qs) == content(ps) + content(qs)
    decreases qs.len()
{
    if qs.len() == 0 { assert(ps + qs =~= ps); assert(content(ps) + content(qs) =~= content(ps)); }
    else {
        let m = choose|m: M| went(b, qs.drop_last(), m) && #[trigger] M::metered(m, qs.last(), c);
        went_add(a, ps, b, qs.drop_last(), m);
        assert((ps + qs).drop_last() =~= ps + qs.drop_last());
        assert((ps + qs).last() == qs.last());
        assert(content(ps) + content(qs) =~= (content(ps) + content(qs.drop_last())) + qs.last().items());
    }
}
pub proof fn measured_add<G: ?Sized + SequenceSegment, M: Meter<G>>(a: M, s: Seq<G::Item>, b: M, t: Seq<G::Item>, c: M)
    requires measured::<G, M>(a, s, b), measured::<G, M>(b, t, c), ensures measured::<G, M>(a, s + t, c)
{
    let ps = choose|ps: Seq<&G>| #[trigger] went(a, ps, b) && content(ps) == s;
    let qs = choose|qs: Seq<&G>| #[trigger] went(b, qs, c) && content(qs) == t;
    went_add(a, ps, b, qs, c);
}
pub broadcast proof fn measured_none<G: ?Sized + SequenceSegment, M: Meter<G>>(a: M, s: Seq<G::Item>)
    requires s.len() == 0, ensures #[trigger] measured::<G, M>(a, s, a)
{
    let ps = Seq::<&G>::empty();
    assert(went(a, ps, a));
    assert(content(ps) =~= s);
}
pub broadcast proof fn measured_one<G: ?Sized + SequenceSegment, M: Meter<G>>(a: M, g: &G, b: M)
    requires #[trigger] M::metered(a, g, b), ensures measured::<G, M>(a, g.items(), b)
{
    let ps = seq![g];
    assert(ps.drop_last() =~= Seq::<&G>::empty());
    assert(went(a, ps.drop_last(), a));
    assert(M::metered(a, ps.last(), b));
    assert(went(a, ps, b));
    assert(content(ps.drop_last()) =~= Seq::<G::Item>::empty());
    assert(content(ps) =~= g.items());
}
pub broadcast proof fn take_add<A>(s: Seq<A>, m: int, n: int)
    requires 0 <= m, 0 <= n, m + n <= s.len(), ensures s.take(m) + #[trigger] s.skip(m).take(n) == s.take(m + n)
{ assert(s.take(m) + s.skip(m).take(n) =~= s.take(m + n)); }
}
pub use meters::*;
//@trait measured MeasuredSequence
//@inject
    /// `m` are the metrics of what was consumed
    spec fn shows(&self, m: Self::Metrics) -> bool;
//@fn metrics
    ensures self.shows(res),
//@end
pub mod mslice { use super::*;
broadcast use {seg_lemmas::skip_none, meters::measured_none, meters::measured_one};
//@take pslice struct Measured
/// `b` is `a` advanced by `n` items, its meter over exactly those
pub open spec fn went_on<T, M: Metrics<Slice<T>>>(a: Measured<T, M>, n: nat, b: Measured<T, M>) -> bool {
    slice_moved(a.base, n, b.base) && measured::<Slice<T>, M::Meter>(a.meter, a.base@.take(n as int), b.meter)
}
//@impl pslice Sequence Measured
//@inject
    open spec fn items(&self) -> Seq<T> { self.base@ }
    open spec fn num(l: usize) -> nat { l as nat }
    open spec fn moved(a: Self, n: nat, b: Self) -> bool { went_on(a, n, b) }
    open spec fn room(&self, n: nat) -> bool { n <= self.base@.len() && forall|g: &Slice<T>| g@ == self.base@.take(n as int) ==> #[trigger] self.meter.room(g) }
    proof fn valid_items(&self) {}
    proof fn moved_add(a: Self, m: nat, b: Self, n: nat, c: Self) {
        <&Slice<T> as Sequence>::moved_add(a.base, m, b.base, n, c.base);
        take_add(a.base@, m as int, n as int);
        measured_add::<Slice<T>, M::Meter>(a.meter, a.base@.take(m as int), b.meter, b.base@.take(n as int), c.meter);
    }
    proof fn moved_none(a: Self) {}
    proof fn moved_items(a: Self, n: nat, b: Self) {}
//@end
/// `b` is a copy of `a`, its meter cloned
pub open spec fn copied<T, M: Metrics<Slice<T>>>(a: Measured<T, M>, b: Measured<T, M>) -> bool where M::Meter: Clone {
    b.base == a.base && call_ensures(<M::Meter as Clone>::clone, (&a.meter,), b.meter)
}
//@impl pslice Clone Measured
//@fn clone
    ensures copied(*self, res),
//@end
//@impl pslice RewindSequence Measured
//@inject
    open spec fn at(a: Anchor<Self>, s: Self) -> bool { copied(s, a.me) || s == a.me }
//@end
//@impl pslice MeasuredSequence Measured
//@inject
    open spec fn shows(&self, m: M) -> bool { self.meter.reads(m) }
//@end
pub trait IntoMeasuredOf<'me, T: 'static>: Sized {
    spec fn the(&self) -> &'me Slice<T>;
    fn into_measured_with<M: Metrics<Slice<T>>>(self, meter: M::Meter) -> (res: Measured<'me, T, M>)
        ensures res.base == self.the(), res.meter == meter;
    fn into_measured<M: Metrics<Slice<T>>>(self) -> (res: Measured<'me, T, M>) where M::Meter: Default
        ensures res.base == self.the(), call_ensures(<M::Meter as Default>::default, (), res.meter);
}
//@impl pslice IntoMeasured &[T] as=IntoMeasuredOf<'me,T> given=measured:IntoMeasured:into_measured
//@inject
    open spec fn the(&self) -> &'me Slice<T> { self }
//@end
}
pub mod mstr { use super::*;
broadcast use {parts::text_ends, strs::ax_str_len, seg_lemmas::skip_none, meters::measured_none, meters::measured_one};
//@take pstr struct Measured
/// `b` is `a` advanced by `n` items, its meter over exactly those
pub open spec fn went_on<M: Metrics<str>>(a: Measured<M>, n: nat, b: Measured<M>) -> bool {
    text_moved(a.base, n, b.base) && measured::<str, M::Meter>(a.meter, a.base.spec_bytes().take(n as int), b.meter)
}
//@impl pstr Sequence Measured
//@inject
    open spec fn items(&self) -> Seq<u8> { self.base.spec_bytes() }
    open spec fn num(l: BytesDelta) -> nat { l.0 as nat }
    open spec fn moved(a: Self, n: nat, b: Self) -> bool { went_on(a, n, b) }
    open spec fn room(&self, n: nat) -> bool { (n >= self.base.spec_bytes().len() || is_char_boundary(self.base.spec_bytes(), n as int)) && forall|g: &str| g.spec_bytes() == self.base.spec_bytes().take(vstd::math::min(n as int, self.base.spec_bytes().len() as int)) ==> #[trigger] self.meter.room(g) }
    proof fn valid_items(&self) { self.base.valid_items(); }
    proof fn moved_add(a: Self, m: nat, b: Self, n: nat, c: Self) {
        <&str as Sequence>::moved_add(a.base, m, b.base, n, c.base);
        take_add(a.base.spec_bytes(), m as int, n as int);
        measured_add::<str, M::Meter>(a.meter, a.base.spec_bytes().take(m as int), b.meter, b.base.spec_bytes().take(n as int), c.meter);
    }
    proof fn moved_none(a: Self) {}
    proof fn moved_items(a: Self, n: nat, b: Self) {}
//@end
/// `b` is a copy of `a`, its meter cloned
pub open spec fn copied<M: Metrics<str>>(a: Measured<M>, b: Measured<M>) -> bool where M::Meter: Clone {
    b.base == a.base && call_ensures(<M::Meter as Clone>::clone, (&a.meter,), b.meter)
}
//@impl pstr Clone Measured
//@fn clone
    ensures copied(*self, res),
//@end
//@impl pstr RewindSequence Measured
//@inject
    open spec fn at(a: Anchor<Self>, s: Self) -> bool { copied(s, a.me) || s == a.me }
//@end
//@impl pstr MeasuredSequence Measured
//@inject
    open spec fn shows(&self, m: M) -> bool { self.meter.reads(m) }
//@end
pub trait IntoMeasuredOf<'me>: Sized {
    spec fn the(&self) -> &'me str;
    fn into_measured_with<M: Metrics<str>>(self, meter: M::Meter) -> (res: Measured<'me, M>)
        ensures res.base == self.the(), res.meter == meter;
    fn into_measured<M: Metrics<str>>(self) -> (res: Measured<'me, M>) where M::Meter: Default
        ensures res.base == self.the(), call_ensures(<M::Meter as Default>::default, (), res.meter);
}
//@impl pstr IntoMeasured &str as=IntoMeasuredOf<'me> given=measured:IntoMeasured:into_measured
//@inject
    open spec fn the(&self) -> &'me str { self }
//@end
}
//@trait measured Measureable plain
//@inject
    spec fn measures(&self, m: M) -> bool;
//@fn measure
    ensures self.measures(res),
//@end
pub mod count { use super::*;
//@impl measured Measureable [T]
//@inject
    open spec fn measures(&self, m: usize) -> bool { m == self@.len() }
//@end
//@impl measured Meter usize
//@inject
    open spec fn metered(a: usize, segment: &S, b: usize) -> bool { exists|n: usize| #[trigger] segment.measures(n) && b == a + n }
    open spec fn room(&self, segment: &S) -> bool { forall|n: usize| #[trigger] segment.measures(n) ==> *self + n <= usize::MAX }
    open spec fn reads(&self, m: usize) -> bool { m == *self }
//@end
proof fn counted<T>(a: usize, ps: Seq<&Slice<T>>, b: usize)
    requires went::<Slice<T>, usize>(a, ps, b), ensures b == a + content(ps).len()
    decreases ps.len()
{
    if ps.len() > 0 {
        let m = choose|m: usize| went::<Slice<T>, usize>(a, ps.drop_last(), m) && #[trigger] <usize as Meter<Slice<T>>>::metered(m, ps.last(), b);
        counted(a, ps.drop_last(), m);
    }
}
/// the count metrics of slices are the number of items consumed
pub proof fn counts<T>(a: usize, s: Seq<T>, b: usize)
    requires measured::<Slice<T>, usize>(a, s, b), ensures b == a + s.len()
{
    let ps = choose|ps: Seq<&Slice<T>>| #[trigger] went::<Slice<T>, usize>(a, ps, b) && content(ps) == s;
    counted(a, ps, b);
}
}
}
fn main() {}
