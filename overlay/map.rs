//@include core.inc
pub mod unit { use super::*;
broadcast use tb::conv;
use std::fmt::Debug;
//@file pext crates/parcom-parsers/src/extension/parser.rs
//@file map crates/parcom-parsers/src/combinator/map.rs
//@file and_then crates/parcom-parsers/src/combinator/and_then.rs
//@file unify crates/parcom-parsers/src/combinator/unify.rs
//@file reference crates/parcom-parsers/src/combinator/reference.rs
//@file util crates/parcom-parsers/src/util.rs
//@take map struct Map
//@impl map ParserOnce Map
//@inject
    open spec fn total(&self) -> bool { self.parser.total() && forall|x: P::Output| #[trigger] self.mapping.requires((x,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && t == s && self.mapping.ensures((v,), u),
            Err((e, l)) => r matches Err((f, m)) && f == e && m == l,
        }
    }
//@end
//@impl map Parser Map
//@end
//@impl map - Map only=new
//@fn new
    ensures res.parser == $0, res.mapping == $1,
//@end
//@take map struct MapErr
//@impl map ParserOnce MapErr
//@inject
    open spec fn total(&self) -> bool { self.parser.total() && forall|x: P::Error| #[trigger] self.mapping.requires((x,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && t == s && u == v,
            Err((e, l)) => r matches Err((f, m)) && m == l && self.mapping.ensures((e,), f),
        }
    }
//@end
//@impl map Parser MapErr
//@end
//@impl map - MapErr only=new
//@fn new
    ensures res.parser == $0, res.mapping == $1,
//@end
//@take and_then struct AndThen
//@impl and_then ParserOnce AndThen
//@inject
    open spec fn total(&self) -> bool { self.parser.total() && forall|x: P::Output| #[trigger] self.map.requires((x,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => match r {
                Ok((u, t)) => t == s && self.map.ensures((v,), Ok(u)),
                Err((f, m)) => m == UnknownLocation(s) && self.map.ensures((v,), Err(f)),
            },
            Err((e, l)) => r matches Err((f, m)) && m == l && into_rel::<P::Error, E>(e, f),
        }
    }
//@end
//@impl and_then Parser AndThen
//@end
//@impl and_then - AndThen only=new
//@fn new
    ensures res.parser == $0, res.map == $1,
//@end
//@take unify struct Unify
//@impl unify ParserOnce Unify
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && t == s && unified::<T0, T1, T>(v, u),
            Err((e, l)) => r matches Err((f, m)) && f == e && m == l,
        }
    }
//@end
//@impl unify Parser Unify
//@end
//@impl unify - Unify only=new
//@fn new
    ensures res.parser == $0,
//@end
//@take unify struct UnifyErr
//@impl unify ParserOnce UnifyErr
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|r0: ParserResult<S, P>| #[trigger] self.parser.rel(input, r0) && match r0 {
            Ok((v, s)) => r matches Ok((u, t)) && t == s && u == v,
            Err((e, l)) => r matches Err((f, m)) && m == l && unified::<T0, T1, T>(e, f),
        }
    }
//@end
//@impl unify Parser UnifyErr
//@end
//@impl unify - UnifyErr only=new
//@fn new
    ensures res.parser == $0,
//@end
//@take reference struct Ref
//@impl reference ParserOnce Ref
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool { self.parser.rel(input, r) }
//@end
//@impl reference Parser Ref
//@end
//@impl reference - Ref only=new
//@fn new
    ensures res.parser == $0,
//@end
//@impl reference Clone Ref
//@fn clone
    ensures res.parser == self.parser,
//@end
//@take util struct Boxed
//@impl util ParserOnce Boxed
//@inject
    open spec fn total(&self) -> bool { self.parser.total() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool { self.parser.rel(input, r) }
//@end
//@impl util Parser Boxed
//@end
//@impl util - Boxed only=new
//@fn new
    ensures res.parser == $0,
//@end
//@trait pext ParserExtension
//@fn map
    ensures res.parser == self, res.mapping == $0,
//@fn map_err
    ensures res.parser == self, res.mapping == $0,
//@fn as_ref
    ensures res.parser == self,
//@fn unify
    ensures res.parser == self,
//@fn unify_err
    ensures res.parser == self,
//@fn and_then
    ensures res.parser == self, res.map == $0,
//@fn boxed
    ensures res.parser == self,
//@end
//@impl either - Either only=unwrap_first,unwrap_last,always_first,always_last
//@fn unwrap_first
    requires self is First,
    ensures self == Either::<T0, T1>::First(res),
//@fn unwrap_last
    requires self is Last,
    ensures self == Either::<T0, T1>::Last(res),
//@fn always_first
    requires self is First,
    ensures self == Either::<T0, T1>::First(res),
//@fn always_last
    requires self is Last,
    ensures self == Either::<T0, T1>::Last(res),
//@end
//@impl either_both - EitherBoth only=always_first,always_last
//@fn always_first
    requires self is First,
    ensures self == EitherBoth::<T0, T1>::First(res),
//@fn always_last
    requires self is Last,
    ensures self == EitherBoth::<T0, T1>::Last(res),
//@end
/// a value of such a type does not exist
pub trait ShouldNever {
    fn never<T>(&self) -> T requires false;
}
}
}
fn main() {}
