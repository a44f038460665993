//@include core.inc
//@include iter.inc
//@file iext crates/parcom-parsers/src/extension/iterative.rs
//@file map_each crates/parcom-parsers/src/iterative/map_each.rs
//@file try_map_each crates/parcom-parsers/src/iterative/try_map_each.rs
//@file map_while crates/parcom-parsers/src/iterative/map_while.rs
//@file scan crates/parcom-parsers/src/iterative/scan.rs
//@file take crates/parcom-parsers/src/iterative/take.rs
pub mod map_each { use super::*;
broadcast use tb::conv;
//@take map_each struct IterationState
//@impl map_each IterativeParserState IterationState
//@inject
    open spec fn total(&self) -> bool { self.state.total() && forall|v: P::Output| #[trigger] self.map.requires((v,)) }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<T>, P::Error>) -> bool {
        &&& post.map == pre.map
        &&& stepped::<S, P>(pre.state, input, post.state, |r0: ParseResult<S, Option<P::Output>, P::Error>| match r0 {
            Ok((Some(v), s)) => r matches Ok((Some(u), t)) && t == s && pre.map.ensures((v,), u),
            Ok((None, s)) => r matches Ok((None, t)) && t == s,
            Err((e, l)) => r matches Err((f, m)) && f == e && m == l,
        })
    }
//@end
//@take map_each struct MapEach
//@impl map_each - MapEach only=new
//@fn new
    ensures res.parser == $0, res.map == $1,
//@end
//@impl map_each IterativeParserOnce MapEach inherent
//@fn parse_iterative_once
    requires self.parser.itotal(), forall|v: P::Output| #[trigger] self.map.requires((v,)),
    ensures self.parser.starts_once(res.state), res.map == self.map, res.total(),
//@end
//@impl map_each IterativeParser MapEach inherent
//@fn parse_iterative
    requires self.parser.itotal(), forall|v: P::Output| #[trigger] self.map.requires((v,)),
    ensures self.parser.starts(res.state), res.map == &self.map, res.total(),
//@end
}
pub mod try_map_each { use super::*;
broadcast use tb::conv;
//@take try_map_each struct IterationState
//@impl try_map_each IterativeParserState IterationState inherent
//@fn parse_next
    requires old(self).state.total(), forall|v: P::Output| #[trigger] old(self).f.requires((v,)),
    ensures final(self).state.total(), final(self).f == old(self).f,
        stepped::<S, P>(old(self).state, $0, final(self).state, |r0: ParseResult<S, Option<P::Output>, P::Error>| match r0 {
            Ok((Some(v), s)) => exists|m: Result<O, E>| #[trigger] old(self).f.ensures((v,), m) && match m {
                Ok(u) => res matches Ok((Some(u1), t)) && t == s && u1 == u,
                Err(e) => if e.fatal() { res matches Err((f, m)) && f == e && m == UnknownLocation(s) }
                    else { res matches Ok((None, t)) && t == s },
            },
            Ok((None, s)) => res matches Ok((None, t)) && t == s,
            Err((e, l)) => res matches Err((f, m)) && into_rel::<P::Error, E>(e, f) && m == l,
        }),
//@end
//@take try_map_each struct TryMapEach
//@impl try_map_each - TryMapEach only=new
//@fn new
    ensures res.parser == $0, res.f == $1,
//@end
//@impl try_map_each IterativeParserOnce TryMapEach inherent
//@fn parse_iterative_once
    requires self.parser.itotal(), forall|v: P::Output| #[trigger] self.f.requires((v,)),
    ensures self.parser.starts_once(res.state), res.f == self.f, res.state.total(),
//@end
//@impl try_map_each IterativeParser TryMapEach inherent
//@fn parse_iterative
    requires self.parser.itotal(), forall|v: P::Output| #[trigger] self.f.requires((v,)),
    ensures self.parser.starts(res.state), res.f == &self.f, res.state.total(),
//@end
}
pub mod map_while { use super::*;
broadcast use tb::conv;
//@take map_while struct IterationState
//@impl map_while IterativeParserState IterationState inherent
//@fn parse_next
    requires old(self).state.total(), forall|v: P::Output| #[trigger] old(self).f.requires((v,)),
    ensures final(self).state.total(), final(self).f == old(self).f,
        stepped::<S, P>(old(self).state, $0, final(self).state, |r0: ParseResult<S, Option<P::Output>, P::Error>| match r0 {
            Ok((Some(v), s)) => res matches Ok((u, t)) && t == s && old(self).f.ensures((v,), u),
            Ok((None, s)) => res matches Ok((None, t)) && t == s,
            Err((e, l)) => res matches Err((f, m)) && f == e && m == l,
        }),
//@end
//@take map_while struct MapWhile
//@impl map_while - MapWhile only=new
//@fn new
    ensures res.parser == $0, res.f == $1,
//@end
//@impl map_while IterativeParserOnce MapWhile inherent
//@fn parse_iterative_once
    requires self.parser.itotal(), forall|v: P::Output| #[trigger] self.f.requires((v,)),
    ensures self.parser.starts_once(res.state), res.f == self.f, res.state.total(),
//@end
//@impl map_while IterativeParser MapWhile inherent
//@fn parse_iterative
    requires self.parser.itotal(), forall|v: P::Output| #[trigger] self.f.requires((v,)),
    ensures self.parser.starts(res.state), res.f == &self.f, res.state.total(),
//@end
}
pub mod scan { use super::*;
broadcast use tb::conv;
//@take scan struct IterationState
#[verifier::prophetic]
/// applying `f` to the running state `a` and `v` may leave state `b` and give `u`
pub open spec fn scanned<St, A, O, F: Fn(&mut St, A) -> O>(f: F, a: St, v: A, b: St, u: O) -> bool {
    exists|m: &mut St| *m == a && *final(m) == b && #[trigger] f.ensures((m, v), u)
}
//@impl scan IterativeParserState IterationState inherent
//@fn parse_next
    requires old(self).parser_state.total(), forall|m: &mut St, v: P::Output| #[trigger] old(self).f.requires((m, v)),
    ensures final(self).parser_state.total(), final(self).f == old(self).f,
        stepped::<S, P>(old(self).parser_state, $0, final(self).parser_state, |r0: ParseResult<S, Option<P::Output>, P::Error>| match r0 {
            Ok((Some(v), s)) => res matches Ok((Some(u), t)) && t == s && scanned::<St, P::Output, O, F>(old(self).f, old(self).state, v, final(self).state, u),
            Ok((None, s)) => res matches Ok((None, t)) && t == s && final(self).state == old(self).state,
            Err((e, l)) => res matches Err((f, m)) && f == e && m == l && final(self).state == old(self).state,
        }),
//@end
//@take scan struct Scan
//@impl scan - Scan only=new
//@fn new
    ensures res.parser == $0, res.initial_state == $1, res.f == $2,
//@end
//@impl scan IterativeParserOnce Scan inherent
//@fn parse_iterative_once
    requires self.parser.itotal(), forall|m: &mut St, v: P::Output| #[trigger] self.f.requires((m, v)),
    ensures self.parser.starts_once(res.parser_state), res.f == self.f, res.state == self.initial_state, res.parser_state.total(),
//@end
//@impl scan IterativeParser Scan inherent
//@fn parse_iterative
    requires self.parser.itotal(), forall|m: &mut St, v: P::Output| #[trigger] self.f.requires((m, v)),
    ensures self.parser.starts(res.parser_state), res.f == &self.f, call_ensures(<St as Clone>::clone, (&self.initial_state,), res.state), res.parser_state.total(),
//@end
}
pub mod take { use super::*;
broadcast use tb::conv;
//@take take struct IterationState
//@impl take IterativeParserState IterationState
//@inject
    open spec fn total(&self) -> bool { self.state.total() }
    open spec fn step(pre: Self, input: S, post: Self, r: ParseResult<S, Option<P::Output>, P::Error>) -> bool {
        if pre.left == 0 {
            post == pre && (r matches Ok((None, t)) && t == input)
        } else {
            stepped::<S, P>(pre.state, input, post.state, |r0: ParseResult<S, Option<P::Output>, P::Error>| match r0 {
                Ok((Some(v), s)) => r matches Ok((Some(u), t)) && u == v && t == s && post.left == pre.left - 1,
                Ok((None, s)) => r matches Ok((None, t)) && t == s && post.left == pre.left,
                Err((e, l)) => r matches Err((f, m)) && f == e && m == l && post.left == pre.left,
            })
        }
    }
//@end
//@take take struct Take
//@impl take - Take only=new
//@fn new
    ensures res.parser == $0, res.count == $1,
//@end
//@impl take IterativeParserOnce Take
//@inject
    open spec fn itotal(&self) -> bool { self.parser.itotal() }
    open spec fn starts_once(&self, s: Self::StateOnce) -> bool { self.parser.starts_once(s.state) && s.left == self.count }
//@end
//@impl take IterativeParser Take inherent
//@fn parse_iterative
    requires self.itotal(),
    ensures self.parser.starts(res.state), res.left == self.count, res.total(),
//@end
}
pub mod methods { use super::*; use super::{scan::Scan, map_each::MapEach, try_map_each::TryMapEach, map_while::MapWhile, take::Take};
//@trait iext IterativeParserExtension
//@fn scan
    ensures res.parser == self, res.initial_state == $0, res.f == $1,
//@fn map_each
    ensures res.parser == self, res.map == $0,
//@fn try_map_each
    ensures res.parser == self, res.f == $0,
//@fn map_while
    ensures res.parser == self, res.f == $0,
//@fn take
    ensures res.parser == self, res.count == $0,
//@end
}
}
fn main() {}
