//@include core.inc
//@include iter.inc
//@include reps.inc
//@include shortvec.inc
//@include binop.inc
//@file or crates/parcom-parsers/src/combinator/or.rs
//@file optional crates/parcom-parsers/src/combinator/optional.rs
//@file repeat crates/parcom-parsers/src/combinator/repeat.rs
//@file join crates/parcom-parsers/src/combinator/join.rs
//@file map crates/parcom-parsers/src/combinator/map.rs
//@file and_then crates/parcom-parsers/src/combinator/and_then.rs
//@file unify crates/parcom-parsers/src/combinator/unify.rs
//@file reference crates/parcom-parsers/src/combinator/reference.rs
//@file boxed crates/parcom-parsers/src/util.rs
// C02: what each combinator does with fatal errors, and nothing else.
pub mod errors { use super::*;
//@impl parse_error ParseError &T
//@inject
    open spec fn fatal(&self) -> bool { (**self).fatal() }
//@end
//@impl parse_error ParseError Option
//@inject
    open spec fn fatal(&self) -> bool { match self { Some(e) => e.fatal(), None => false } }
//@end
//@take util_error struct Fatal
//@impl util_error ParseError Fatal
//@inject
    open spec fn fatal(&self) -> bool { true }
//@end
//@take util_error struct Miss
//@impl util_error ParseError Miss
//@inject
    open spec fn fatal(&self) -> bool { false }
//@end
}
/// `r0` is a fatal failure
pub open spec fn fatal_failure<S, O, E: ParseError>(r0: ParseResult<S, O, E>) -> bool { r0 matches Err((e, l)) && e.fatal() }
/// a fatal failure `r0` comes out as `r`, same error, same location
pub open spec fn passes<S, O, E: ParseError, O1>(r0: ParseResult<S, O, E>, r: ParseResult<S, O1, E>) -> bool {
    r0 matches Err((e, l)) && e.fatal() ==> (r matches Err((f, m)) && f == r0->Err_0.0 && m == r0->Err_0.1)
}
pub mod or { use super::*;
broadcast use tb::conv;
//@take or struct Or
//@impl or ParserOnce Or
//@inject
    open spec fn total(&self) -> bool { self.parser0.total() && self.parser1.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P0>| #[trigger] self.parser0.rel(input, r0) && (
            if fatal_failure::<S, P0::Output, P0::Error>(r0) { r matches Err((f, m)) && f == EitherBoth::<P0::Error, P1::Error>::First(r0->Err_0.0) && m == r0->Err_0.1 }
            else if r0 is Err { exists|mid: S, r1: ParserResult<S, P1>| #[trigger] self.parser1.rel(mid, r1) && (fatal_failure::<S, P1::Output, P1::Error>(r1) ==>
                (r matches Err((f, m)) && f == EitherBoth::<P0::Error, P1::Error>::Last(r1->Err_0.0) && m == r1->Err_0.1)) }
            else { true })
    }
//@end
//@impl or Parser Or
//@end
}
pub mod join { use super::*;
broadcast use tb::conv;
//@take join struct Join
//@impl join ParserOnce Join
//@inject
    open spec fn total(&self) -> bool { self.parser0.total() && self.parser1.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P0>| #[trigger] self.parser0.rel(input, r0) && match r0 {
            Err((e, l)) => e.fatal() ==> (r matches Err((f, m)) && f == Either::<P0::Error, P1::Error>::First(e) && m == l),
            Ok((v, s)) => exists|r1: ParserResult<S, P1>| #[trigger] self.parser1.rel(s, r1) && (fatal_failure::<S, P1::Output, P1::Error>(r1) ==>
                (r matches Err((f, m)) && f == Either::<P0::Error, P1::Error>::Last(r1->Err_0.0) && m == r1->Err_0.1)),
        }
    }
//@end
//@impl join Parser Join
//@end
}
pub mod optional { use super::*;
broadcast use tb::conv;
//@take optional struct Optional
//@impl optional ParserOnce Optional
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && passes::<S, P::Output, P::Error, Result<P::Output, P::Error>>(r0, r)
    }
//@end
//@impl optional Parser Optional
//@end
//@take optional struct IterationStateOnce
pub open spec fn opt_step<S: Sequence, P: ParserOnce<S>>(p: P, input: S, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
    exists|r0: ParserResult<S, P>| #[trigger] p.rel(input, r0) && passes::<S, P::Output, P::Error, Option<P::Output>>(r0, r)
}
//@impl optional IterativeParserState IterationStateOnce
//@inject
    open spec fn total(&self) -> bool { self.me matches Some(m) ==> m.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        pre.me matches Some(m) ==> opt_step(m.parser, input, r)
    }
//@end
//@take optional struct IterationState
//@impl optional IterativeParserState IterationState
//@inject
    open spec fn total(&self) -> bool { self.me matches Some(m) ==> m.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        pre.me matches Some(m) ==> opt_step(m.parser, input, r)
    }
//@end
}
pub mod reference { use super::*;
broadcast use tb::conv;
//@take reference struct Ref
//@impl reference ParserOnce Ref
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && passes::<S, P::Output, P::Error, P::Output>(r0, r)
    }
//@end
//@impl reference Parser Ref
//@end
//@take boxed struct Boxed
//@impl boxed ParserOnce Boxed
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && passes::<S, P::Output, P::Error, P::Output>(r0, r)
    }
//@end
//@impl boxed Parser Boxed
//@end
}
/// some number of successful runs of `p` leads from `input` to `s`
pub open spec fn reached<S: Sequence, P: ParserOnce<S>>(p: P, input: S, s: S) -> bool {
    exists|outs: Seq<P::Output>| #[trigger] reps(p, input, outs, s)
}
pub mod reached_lemmas { use super::*;
broadcast use {reps_lemmas::reps_zero, reps_lemmas::reps_push};
pub broadcast proof fn reached_zero<S: Sequence, P: ParserOnce<S>>(p: P, input: S)
    ensures #[trigger] reached(p, input, input) { assert(reps(p, input, Seq::<P::Output>::empty(), input)); }
pub broadcast proof fn reached_push<S: Sequence, P: ParserOnce<S>>(p: P, input: S, mid: S, r: ParserResult<S, P>)
    requires #[trigger] reached(p, input, mid), #[trigger] p.rel(mid, r), r is Ok,
    ensures reached(p, input, r->Ok_0.1)
{
    let outs = choose|outs: Seq<P::Output>| #[trigger] reps(p, input, outs, mid);
    assert(reps(p, input, outs.push(r->Ok_0.0), r->Ok_0.1));
}
}
pub mod repeat { use super::*;
broadcast use {tb::conv, reached_lemmas::reached_zero, reached_lemmas::reached_push};
//@take repeat struct Repeat
//@impl repeat ParserOnce Repeat
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        ||| exists|s: S, r0: ParserResult<S, P>| #[trigger] reached(self.parser, input, s) && #[trigger] self.parser.rel(s, r0)
            && r0 is Err && passes::<S, P::Output, P::Error, (Vec<P::Output>, P::Error)>(r0, r)
        // or it stopped without a failing run
        ||| exists|s: S| #[trigger] reached(self.parser, input, s) && (r matches Ok((v, t)) && t == s)
    }
//@end
//@impl repeat Parser Repeat
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@loop 0
    invariant self.total(), reached(self.parser, $0, $rest), // vx_also 1
//@end
//@take repeat struct IterationState
//@impl repeat IterativeParserState IterationState
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] pre.parser.rel(input, r0) && passes::<S, P::Output, P::Error, Option<P::Output>>(r0, r)
    }
//@end
}
pub mod map { use super::*;
broadcast use tb::conv;
//@take map struct Map
//@impl map ParserOnce Map
//@inject
    open spec fn total(&self) -> bool { self.parser.total() && forall|x: P::Output| #[trigger] self.mapping.requires((x,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && passes::<S, P::Output, P::Error, U>(r0, r)
    }
//@end
//@impl map Parser Map
//@end
//@take map struct MapErr
//@impl map ParserOnce MapErr
//@inject
    open spec fn total(&self) -> bool { self.parser.total() && forall|x: P::Error| #[trigger] self.mapping.requires((x,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && (r0 matches Err((e, l)) && e.fatal() ==>
            (r matches Err((f, m)) && self.mapping.ensures((r0->Err_0.0,), f) && m == r0->Err_0.1))
    }
//@end
//@impl map Parser MapErr
//@end
//@take and_then struct AndThen
//@impl and_then ParserOnce AndThen
//@inject
    open spec fn total(&self) -> bool { self.parser.total() && forall|x: P::Output| #[trigger] self.map.requires((x,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Err((e, l)) => e.fatal() ==> (r matches Err((f, m)) && into_rel::<P::Error, E>(e, f) && m == l),
            Ok((v, s)) => exists|m: Result<O, E>| #[trigger] self.map.ensures((v,), m) && (m matches Err(e) && e.fatal() ==> (r matches Err((f, l)) && f == m->Err_0)),
        }
    }
//@end
//@impl and_then Parser AndThen
//@end
//@take unify struct Unify
//@impl unify ParserOnce Unify
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && passes::<S, Either<T0, T1>, P::Error, T>(r0, r)
    }
//@end
//@impl unify Parser Unify
//@end
//@take unify struct UnifyErr
//@impl unify ParserOnce UnifyErr
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && (r0 matches Err((e, l)) && e.fatal() ==>
            (r matches Err((f, m)) && unified::<T0, T1, T>(r0->Err_0.0, f) && m == r0->Err_0.1))
    }
//@end
//@impl unify Parser UnifyErr
//@end
}
pub mod bin_expr { use super::*;
broadcast use {tb::conv, read_lemmas::read_first, read_lemmas::read_pair, read_lemmas::ends_op, read_lemmas::ends_term};
pub open spec fn fatal_ends<S: RewindSequence, T: ParserOnce<S>, O: ParserOnce<S>, U>(t: T, o: O, input: S, r: ParseResult<S, U, Either<O::Error, T::Error>>) -> bool {
    ||| exists|r0: ParserResult<S, T>| #[trigger] t.rel(input, r0) && r0 is Err && (r0->Err_0.0.fatal() ==>
        (r matches Err((f, m)) && f == Either::<O::Error, T::Error>::Last(r0->Err_0.0) && m == r0->Err_0.1))
    ||| exists|s: S, why: Either<O::Error, T::Error>, l: UnknownLocation<S>| #[trigger] read(t, o, input, s) && #[trigger] ends(t, o, s, why, l)
        && (why.fatal() ==> (r matches Err((f, m)) && f == why && m == l))
    // or it stopped without a failing run
    ||| exists|s: S, r1: ParserResult<S, O>| #[trigger] read(t, o, input, s) && #[trigger] o.rel(s, r1) && (r1 matches Ok((v, s1)) && (r matches Ok((u, t)) && t == s1))
}
//@take bin_expr struct BinExprParser
//@impl bin_expr ParserOnce BinExprParser
//@inject
    open spec fn total(&self) -> bool { self.parser_term.total() && self.parser_op.total() && forall|v: PTerm::Output| #[trigger] call_requires(<Expr as From<PTerm::Output>>::from, (v,))
        && forall|v: (Expr, POp::Output, Expr)| #[trigger] call_requires(<Expr as From<(Expr, POp::Output, Expr)>>::from, (v,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        fatal_ends::<S, PTerm, POp, (Expr, Either<POp::Error, PTerm::Error>)>(self.parser_term, self.parser_op, input, r)
    }
//@end
//@impl bin_expr Parser BinExprParser
//@end
//@impl bin_expr - BinExprParser only=parse_impl
//@fn parse_impl loops=3
    requires self.total(),
    ensures fatal_ends::<S, PTerm, POp, (Expr, Result<(POp::Output, S::Anchor), Either<POp::Error, PTerm::Error>>)>(self.parser_term, self.parser_op, $0, res),
        res matches Ok(((e, Ok(op)), t)) ==> op.0.prec() < $1,
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 0
    invariant_except_break self.total(), read(self.parser_term, self.parser_op, $0, $rest), // vx_also 2
    ensures stopped(self.parser_term, self.parser_op, $0, $1, $reason, $rest),
//@loop 1
    invariant true, // vx_also 2
//@loop 2
    invariant true, // vx_also 1
//@end
pub open spec fn stopped<S: RewindSequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, prec: usize, why: Result<(O::Output, S::Anchor), Either<O::Error, T::Error>>, rest: S) -> bool where O::Output: Operator {
    match why {
        Ok(op) => op.0.prec() < prec && exists|s: S, r1: ParserResult<S, O>| #[trigger] read(t, o, input, s) && #[trigger] o.rel(s, r1) && (r1 matches Ok((v, s1)) && s1 == rest),
        Err(e) => exists|s: S, l: UnknownLocation<S>| #[trigger] read(t, o, input, s) && #[trigger] ends(t, o, s, e, l) && !e.fatal(),
    }
}
}
}
fn main() {}
