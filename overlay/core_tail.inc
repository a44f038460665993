//@take unknown struct UnknownLocation
//@impl unknown - UnknownLocation only=unwrap,as_ref
//@fn unwrap
    ensures res == self.0,
//@fn as_ref
    ensures *res.0 == self.0,
//@end
//@impl unknown From UnknownLocation
//@end
impl<S> FromSpecImpl<S> for UnknownLocation<S> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: S) -> Self { UnknownLocation(v) }
}
//@take core_lib type ParseResult
//@take core_lib type ParserResult

//@trait parser ParserOnce
//@inject
    /// the parser's functions accept every value
    spec fn total(&self) -> bool;
    /// running this parser on `input` may give `r`
    spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool;
//@fn parse_once
    requires self.total(),
    ensures self.rel($0, res),
//@end

//@trait parser Parser
//@fn parse
    requires self.total(),
    ensures self.rel($0, res),
//@end

//@take either enum Either
//@take either_both enum EitherBoth
//@impl either ParseError Either
//@inject
    open spec fn fatal(&self) -> bool {
        match self { Either::First(e) => e.fatal(), Either::Last(e) => e.fatal() }
    }
//@end
//@impl either_both ParseError EitherBoth
//@inject
    open spec fn fatal(&self) -> bool {
        match self { EitherBoth::First(e) => e.fatal(), EitherBoth::Last(e) => e.fatal(), EitherBoth::Both(e0, e1) => e0.fatal() || e1.fatal() }
    }
//@end
/// `u` is a two-sided value converted, whichever side is present
pub open spec fn unified<T0: Into<T>, T1: Into<T>, T>(v: Either<T0, T1>, u: T) -> bool {
    match v { Either::First(e) => into_rel::<T0, T>(e, u), Either::Last(e) => into_rel::<T1, T>(e, u) }
}
//@impl either - Either only=unify
//@fn unify
    ensures unified::<T0, T1, T>(self, res),
//@end

//@take util_lib fn done ...
//@fn done
    ensures res == Ok::<(O, S), (E, UnknownLocation<S>)>(($0, $1)),
//@end
//@take util_lib fn fail ...
//@fn fail
    ensures res matches Err((e, l)) && into_rel($0, e) && into_rel($1, l),
//@end
