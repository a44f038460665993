//@include core.inc
//@include iter.inc
//@include reps.inc
pub mod unit { use super::*;
broadcast use {tb::conv, reps_lemmas::reps_zero, reps_lemmas::reps_push};
//@file pext crates/parcom-parsers/src/extension/parser.rs
//@file repeat crates/parcom-parsers/src/combinator/repeat.rs
//@file reference crates/parcom-parsers/src/combinator/reference.rs
//@take reference struct Ref
//@impl reference ParserOnce Ref
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool { self.parser.rel(input, r) }
//@end
//@impl reference Parser Ref
//@end
//@impl reference - Ref only=new
//@fn new
    ensures res.parser == $0,
//@end
//@take repeat struct Repeat
//@impl repeat ParserOnce Repeat
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|s: S, r0: ParserResult<S, P>, outs: Seq<P::Output>| #[trigger] reps(self.parser, input, outs, s) && #[trigger] self.parser.rel(s, r0) && match r0 {
            Ok(_) => false,
            Err((e, l)) => if e.fatal() { r matches Err((f, m)) && f == e && m == l }
                else { r matches Ok(((vs, e1), t)) && vs@ == outs && e1 == e && same_position(s, t) },
        }
    }
//@end
//@impl repeat Parser Repeat
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@loop 0
    invariant self.total(), reps(self.parser, $0, $buf@, $rest),
//@end
//@impl repeat - Repeat only=new
//@fn new
    ensures res.parser == $0,
//@end
//@trait pext ParserExtension
//@fn repeat
    ensures res.parser == self,
//@end
//@take repeat struct IterationState
//@impl repeat IterativeParserState IterationState
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        &&& post.parser == pre.parser
        &&& exists|r0: ParserResult<S, P>| #[trigger] pre.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && u == Some(v) && t == s,
            Err((e, l)) => if e.fatal() { r matches Err((f, m)) && f == e && m == l }
                else { r matches Ok((u, t)) && u is None && same_position(input, t) },
        }
    }
//@end
//@impl repeat IterativeParserOnce Repeat
//@inject
    open spec fn itotal(&self) -> bool { self.parser.total() }
    open spec fn starts_once(&self, s: Self::StateOnce) -> bool { s.parser == self.parser }
//@end
//@impl repeat IterativeParser Repeat inherent
//@fn parse_iterative
    requires self.itotal(),
    ensures res.parser.parser == &self.parser, res.total(),
//@end
}
}
fn main() {}
