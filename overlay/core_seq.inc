//@trait sequence Sequence
//@assoc
type Segments<'a> where Self: 'a;
//@end

//@trait sequence RewindSequence
//@inject
    /// sequence `s` stands at the position of anchor `a`
    spec fn at(a: Self::Anchor, s: Self) -> bool;
//@fn anchor
    ensures Self::at(res, *self),
//@fn rewind
    ensures Self::at($0, res),
//@end

/// `b` stands at the position of `a`
pub open spec fn same_position<S: RewindSequence>(a: S, b: S) -> bool {
    exists|x: S::Anchor| #[trigger] S::at(x, a) && #[trigger] S::at(x, b)
}

