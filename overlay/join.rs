//@include core.inc
pub mod unit { use super::*;
broadcast use tb::conv;
//@file pext crates/parcom-parsers/src/extension/parser.rs
//@file join crates/parcom-parsers/src/combinator/join.rs
//@take join struct Join
//@impl join ParserOnce Join
//@inject
    open spec fn total(&self) -> bool { self.parser0.total() && self.parser1.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P0>| #[trigger] self.parser0.rel(input, r0) && match r0 {
            Ok((v0, s0)) => exists|r1: ParserResult<S, P1>| #[trigger] self.parser1.rel(s0, r1) && match r1 {
                Ok((v1, s1)) => r matches Ok((v, t)) && v == (v0, v1) && t == s1,
                Err((e, l)) => r matches Err((f, m)) && f == Either::<P0::Error, P1::Error>::Last(e) && m == l,
            },
            Err((e, l)) => r matches Err((f, m)) && f == Either::<P0::Error, P1::Error>::First(e) && m == l,
        }
    }
//@end
//@impl join Parser Join
//@end
//@impl join - Join only=new
//@fn new
    ensures res.parser0 == $0, res.parser1 == $1,
//@end
//@trait pext ParserExtension
//@fn join
    ensures res.parser0 == self, res.parser1 == $0,
//@end
}
}
fn main() {}
