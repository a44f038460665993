//@file segment crates/parcom-core/src/sequence/segment.rs
//@file segment_stream crates/parcom-core/src/sequence/segment_stream.rs
//@erase Next = Option<&$0 Self::Segment>

//@trait segment SequenceSegment
//@inject
    /// what the segment consists of
    type Item;
    /// the content of the segment
    spec fn items(&self) -> Seq<Self::Item>;
    /// how many items a length stands for
    spec fn num(l: Self::Length) -> nat;
    /// the content of a text is valid
    spec fn valid(s: Seq<Self::Item>) -> bool;
    /// a content can be split after `n` items
    spec fn cuts(s: Seq<Self::Item>, n: nat) -> bool;
    proof fn valid_items(&self)
        ensures Self::valid(self.items());
    /// comparisons of lengths compare what they stand for; the default length is zero
    proof fn lengths()
        ensures <Self::Length as PartialOrdSpec>::obeys_partial_cmp_spec(), <Self::Length as PartialEqSpec>::obeys_eq_spec(),
            forall|a: Self::Length, b: Self::Length| #[trigger] a.partial_cmp_spec(&b) == Some(if Self::num(a) < Self::num(b) { core::cmp::Ordering::Less } else if Self::num(a) == Self::num(b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),
            forall|a: Self::Length, b: Self::Length| #[trigger] a.eq_spec(&b) == (Self::num(a) == Self::num(b)),
            forall|z: Self::Length| #[trigger] call_ensures(<Self::Length as Default>::default, (), z) ==> Self::num(z) == 0;
//@fn len
    ensures Self::num(res) == self.items().len(),
//@fn split_at
    requires Self::num($0) <= self.items().len(), Self::cuts(self.items(), Self::num($0)),
    ensures res.0.items() == self.items().take(Self::num($0) as int), res.1.items() == self.items().skip(Self::num($0) as int),
//@fn split_at_checked
    ensures match res {
        Some((a, b)) => Self::num($0) <= self.items().len() && a.items() == self.items().take(Self::num($0) as int) && b.items() == self.items().skip(Self::num($0) as int),
        None => Self::num($0) > self.items().len() || !Self::cuts(self.items(), Self::num($0)),
    },
//@head
nodefault
//@end

pub type ItemsOf<G> = Seq<<G as SequenceSegment>::Item>;

//@trait segment_stream SegmentStream
//@assoc
type Segment: ?Sized + SequenceSegment;
//@inject
    /// what the stream will still yield, all segments together
    spec fn rest(&self) -> ItemsOf<Self::Segment>;
//@fn next
    ensures match res {
        Some(s) => s.items().len() <= old(self).rest().len() && s.items() == old(self).rest().take(s.items().len() as int)
            && final(self).rest() == old(self).rest().skip(s.items().len() as int),
        None => old(self).rest().len() == 0,
    },
//@end

//@trait sequence Sequence
//@assoc
type Segment: ?Sized + SequenceSegment;
//@inject
    /// what is left of the input
    spec fn items(&self) -> ItemsOf<Self::Segment>;
    /// how many items a length stands for
    spec fn num(l: Self::Length) -> nat;
    /// `b` stands `n` items after `a`
    spec fn moved(a: Self, n: nat, b: Self) -> bool;
    proof fn moved_none(a: Self)
        ensures Self::moved(a, 0, a);
    proof fn moved_add(a: Self, m: nat, b: Self, n: nat, c: Self)
        requires Self::moved(a, m, b), Self::moved(b, n, c), ensures Self::moved(a, m + n, c);
    proof fn moved_items(a: Self, n: nat, b: Self)
        requires Self::moved(a, n, b), ensures n <= a.items().len(), b.items() == a.items().skip(n as int);
    proof fn valid_items(&self)
        ensures <Self::Segment as SequenceSegment>::valid(self.items());
    /// it may be advanced by `n` (where that is no position of it, it then stands at the end)
    spec fn room(&self, n: nat) -> bool;
//@fn segments
    ensures res.rest() == old(self).items(), Self::moved(*old(self), 0, *final(self)),
//@fn advance
    requires self.room(Self::num($0)),
    ensures <Self::Segment as SequenceSegment>::cuts(self.items(), Self::num($0)) ==> Self::moved(self, Self::num($0), res), 
        !<Self::Segment as SequenceSegment>::cuts(self.items(), Self::num($0)) ==> Self::moved(self, self.items().len(), res),
//@end
/// `b` stands somewhere after `a`
pub open spec fn part<S: Sequence>(a: S, b: S) -> bool { exists|n: nat| #[trigger] S::moved(a, n, b) }
/// inputs of type `S` may be advanced to every position they have
pub open spec fn roomy<S: Sequence>() -> bool { forall|s: S, n: nat| #![trigger s.room(n)] <S::Segment as SequenceSegment>::cuts(s.items(), n) ==> s.room(n) }
pub mod seg_lemmas { use super::*;
pub broadcast proof fn skip_skip<A>(s: Seq<A>, m: int, n: int)
    requires 0 <= m, 0 <= n, m + n <= s.len(), ensures #[trigger] s.skip(m).skip(n) == s.skip(m + n)
{ assert(s.skip(m).skip(n) =~= s.skip(m + n)); }
pub broadcast proof fn skip_none<A>(s: Seq<A>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn skip_all<A>(s: Seq<A>)
    ensures #[trigger] s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn take_take<A>(s: Seq<A>, m: int, n: int)
    requires 0 <= n <= m <= s.len(), ensures #[trigger] s.take(m).take(n) == s.take(n)
{ assert(s.take(m).take(n) =~= s.take(n)); }
pub broadcast proof fn moved_on<S: Sequence>(a: S, b: S, n: nat, c: S)
    requires #[trigger] S::moved(a, 0, b), #[trigger] S::moved(b, n, c), ensures S::moved(a, n, c)
{ S::moved_add(a, 0, b, n, c); }
pub broadcast proof fn valid_left<S: Sequence>(a: S)
    ensures <S::Segment as SequenceSegment>::valid(#[trigger] a.items())
{ a.valid_items(); }
pub broadcast proof fn valid_segment<G: ?Sized + SequenceSegment>(g: &G)
    ensures G::valid(#[trigger] g.items())
{ g.valid_items(); }
pub broadcast proof fn moved_left<S: Sequence>(a: S, n: nat, b: S)
    requires #[trigger] S::moved(a, n, b), ensures n <= a.items().len(), b.items() == a.items().skip(n as int)
{ S::moved_items(a, n, b); }
}
