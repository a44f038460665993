//@include core.inc
pub mod unit { use super::*;
broadcast use tb::conv;
//@file pext crates/parcom-parsers/src/extension/parser.rs
//@file or crates/parcom-parsers/src/combinator/or.rs
//@take or struct Or
//@impl or ParserOnce Or
//@inject
    open spec fn total(&self) -> bool { self.parser0.total() && self.parser1.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P0>| #[trigger] self.parser0.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && u == Either::<P0::Output, P1::Output>::First(v) && t == s,
            Err((e, l)) => if e.fatal() { r matches Err((f, m)) && f == EitherBoth::<P0::Error, P1::Error>::First(e) && m == l }
                else { exists|x: S::Anchor, mid: S, r1: ParserResult<S, P1>| #[trigger] S::at(x, input) && S::at(x, mid) && #[trigger] self.parser1.rel(mid, r1) && match r1 {
                    Ok((v, s)) => r matches Ok((u, t)) && u == Either::<P0::Output, P1::Output>::Last(v) && t == s,
                    Err((e1, l1)) => r matches Err((f, m)) && m == l1 && f == (if e1.fatal() { EitherBoth::<P0::Error, P1::Error>::Last(e1) } else { EitherBoth::<P0::Error, P1::Error>::Both(e, e1) }),
                } },
        }
    }
//@end
//@impl or Parser Or
//@end
//@impl or - Or only=new
//@fn new
    ensures res.parser0 == $0, res.parser1 == $1,
//@end
//@trait pext ParserExtension
//@fn or
    ensures res.parser0 == self, res.parser1 == $0,
//@end
}
}
fn main() {}
