//@trait parser IterativeParserState
//@inject
    /// the iteration can be stepped (and all functions it applies accept every value)
    spec fn total(&self) -> bool;
    /// stepping `pre` on `input` may leave `post` and give `r`
    spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<Self::Output>, Self::Error>) -> bool;
//@fn parse_next
    requires old(self).total(),
    ensures final(self).total(), Self::step(*old(self), $0, *final(self), res),
//@end
//@trait parser IterativeParserOnce
//@inject
    spec fn itotal(&self) -> bool;
    /// `s` is the initial state of this iteration
    spec fn starts_once(&self, s: Self::StateOnce) -> bool;
//@fn parse_iterative_once
    requires self.itotal(),
    ensures self.starts_once(res), res.total(),
//@end
//@trait parser IterativeParser
//@inject
    /// `s` is the initial state of this iteration
    spec fn starts<'a>(&'a self, s: Self::State<'a>) -> bool;
//@fn parse_iterative
    requires self.itotal(),
    ensures self.starts(res), res.total(),
//@end
/// one step of the inner iteration led from `p0` to `p1` with a result that satisfies `q`
pub open spec fn stepped<S: Sequence, P: IterativeParserState<S>>(p0: P, input: S, p1: P, q: spec_fn(ParseResult<S, Option<P::Output>, P::Error>) -> bool) -> bool {
    exists|r0: ParseResult<S, Option<P::Output>, P::Error>| #[trigger] P::step(p0, input, p1, r0) && q(r0)
}
