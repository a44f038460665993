//@include core.inc
//@include iter.inc
pub mod unit { use super::*;
broadcast use tb::conv;
//@file pext crates/parcom-parsers/src/extension/parser.rs
//@file optional crates/parcom-parsers/src/combinator/optional.rs
//@take optional struct Optional
//@impl optional ParserOnce Optional
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && u == Ok::<P::Output, P::Error>(v) && t == s,
            Err((e, l)) => if e.fatal() { r matches Err((f, m)) && f == e && m == l }
                else { r matches Ok((u, t)) && u == Err::<P::Output, P::Error>(e) && same_position(input, t) },
        }
    }
//@end
//@impl optional Parser Optional
//@end
//@impl optional - Optional only=new
//@fn new
    ensures res.parser == $0,
//@end
//@trait pext ParserExtension
//@fn optional
    ensures res.parser == self,
//@end

/// one step of an iteration over an optional parser that has not been stepped yet
pub open spec fn option_step<S: RewindSequence, P: ParserOnce<S>>(p: P, input: S, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
    exists|r0: ParserResult<S, P>| #[trigger] p.rel(input, r0) && match r0 {
        Ok((v, s)) => r matches Ok((u, t)) && u == Some(v) && t == s,
        Err((e, l)) => if e.fatal() { r matches Err((f, m)) && f == e && m == l }
            else { r matches Ok((u, t)) && u is None && same_position(input, t) },
    }
}
//@take optional struct IterationStateOnce
//@impl optional IterativeParserState IterationStateOnce
//@inject
    open spec fn total(&self) -> bool { self.me matches Some(m) ==> m.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        &&& post.me is None
        &&& match pre.me {
            None => r matches Ok((u, t)) && u is None && t == input,
            Some(m) => option_step(m.parser, input, r),
        }
    }
//@end
//@take optional struct IterationState
//@impl optional IterativeParserState IterationState
//@inject
    open spec fn total(&self) -> bool { self.me matches Some(m) ==> m.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        &&& post.me is None
        &&& match pre.me {
            None => r matches Ok((u, t)) && u is None && t == input,
            Some(m) => option_step(m.parser, input, r),
        }
    }
//@end
//@impl optional IterativeParserOnce Optional
//@inject
    open spec fn itotal(&self) -> bool { self.parser.total() }
    open spec fn starts_once(&self, s: Self::StateOnce) -> bool { s.me == Some(*self) }
//@end
//@impl optional IterativeParser Optional inherent
//@fn parse_iterative
    requires self.itotal(),
    ensures res.me == Some(self), res.total(),
//@end
}
}
fn main() {}
