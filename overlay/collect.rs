//@include core.inc
//@include iter.inc
//@include std.inc
//@include steps.inc
//@file iext crates/parcom-parsers/src/extension/iterative.rs
//@file collect crates/parcom-parsers/src/iterative/collect.rs
//@file fold crates/parcom-parsers/src/iterative/fold.rs
/// `c` may be a fresh collection extended by `outs` one by one
pub open spec fn collects<A, C: Extend<A> + Default>(outs: Seq<A>, c: C) -> bool decreases outs.len() {
    if outs.len() == 0 { call_ensures(<C as Default>::default, (), c) }
    else { exists|c0: C| collects(outs.drop_last(), c0) && #[trigger] extended::<C, A>(&c0, seq![outs.last()], &c) }
}
/// `a` may be the left fold of `outs` from `init`
pub open spec fn folds<A, T, F: Fn(A, T) -> A>(f: F, init: A, outs: Seq<T>, a: A) -> bool decreases outs.len() {
    if outs.len() == 0 { a == init }
    else { exists|a0: A| folds(f, init, outs.drop_last(), a0) && #[trigger] f.ensures((a0, outs.last()), a) }
}
/// the iteration that started in `st0` at `input` has yielded some values, is in `st` at `s`, and
/// `c` is a fresh collection extended by exactly those values in order
pub open spec fn collecting<S: Sequence, P: IterativeParserState<S>, C: Extend<P::Output> + Default>(st0: P, input: S, st: P, s: S, c: C) -> bool {
    exists|outs: Seq<P::Output>| #[trigger] steps(st0, input, outs, st, s) && collects::<P::Output, C>(outs, c)
}
/// the same with `a` the left fold of the values
pub open spec fn folding<S: Sequence, P: IterativeParserState<S>, A, F: Fn(A, P::Output) -> A>(st0: P, input: S, f: F, init: A, st: P, s: S, a: A) -> bool {
    exists|outs: Seq<P::Output>| #[trigger] steps(st0, input, outs, st, s) && folds(f, init, outs, a)
}
pub mod lemmas { use super::*;
broadcast use {steps_lemmas::steps_zero, steps_lemmas::steps_push};
pub broadcast proof fn collecting_zero<S: Sequence, P: IterativeParserState<S>, C: Extend<P::Output> + Default>(st0: P, input: S, c: C)
    requires call_ensures(<C as Default>::default, (), c),
    ensures #[trigger] collecting::<S, P, C>(st0, input, st0, input, c)
{
    assert(steps(st0, input, Seq::<P::Output>::empty(), st0, input));
}
pub broadcast proof fn collecting_push<S: Sequence, P: IterativeParserState<S>, C: Extend<P::Output> + Default>(st0: P, input: S, st: P, s: S, c: C, st2: P, r: ParseResult<S, Option<P::Output>, P::Error>, v: P::Output, c2: C)
    requires #[trigger] collecting::<S, P, C>(st0, input, st, s, c), #[trigger] P::step(st, s, st2, r), r matches Ok((Some(w), s2)) && w == v,
        #[trigger] extended::<C, P::Output>(&c, seq![v], &c2),
    ensures r matches Ok((Some(w), s2)) && collecting::<S, P, C>(st0, input, st2, s2, c2)
{
    let outs = choose|outs: Seq<P::Output>| #[trigger] steps(st0, input, outs, st, s) && collects::<P::Output, C>(outs, c);
    assert(outs.push(v).drop_last() =~= outs);
    assert(outs.push(v).last() == v);
    assert(collects::<P::Output, C>(outs.push(v), c2));
    assert(steps(st0, input, outs.push(v), st2, r->Ok_0.1));
}
pub broadcast proof fn folding_zero<S: Sequence, P: IterativeParserState<S>, A, F: Fn(A, P::Output) -> A>(st0: P, input: S, f: F, init: A)
    ensures #[trigger] folding::<S, P, A, F>(st0, input, f, init, st0, input, init)
{
    assert(steps(st0, input, Seq::<P::Output>::empty(), st0, input));
}
pub broadcast proof fn folding_push<S: Sequence, P: IterativeParserState<S>, A, F: Fn(A, P::Output) -> A>(st0: P, input: S, f: F, init: A, st: P, s: S, a: A, st2: P, r: ParseResult<S, Option<P::Output>, P::Error>, v: P::Output, a2: A)
    requires #[trigger] folding::<S, P, A, F>(st0, input, f, init, st, s, a), #[trigger] P::step(st, s, st2, r), r matches Ok((Some(w), s2)) && w == v,
        #[trigger] f.ensures((a, v), a2),
    ensures r matches Ok((Some(w), s2)) && folding::<S, P, A, F>(st0, input, f, init, st2, s2, a2)
{
    let outs = choose|outs: Seq<P::Output>| #[trigger] steps(st0, input, outs, st, s) && folds(f, init, outs, a);
    assert(outs.push(v).drop_last() =~= outs);
    assert(outs.push(v).last() == v);
    assert(folds(f, init, outs.push(v), a2));
    assert(steps(st0, input, outs.push(v), st2, r->Ok_0.1));
}
}
/// collecting the iteration that starts in `st0`
pub open spec fn collect_rel<S: RewindSequence, P: IterativeParserState<S>, C: Extend<P::Output> + Default>(st0: P, input: S, r: ParseResult<S, (C, Option<P::Error>), P::Error>) -> bool {
    exists|st: P, s: S, c0: C, st2: P, r0: ParseResult<S, Option<P::Output>, P::Error>|
        #[trigger] collecting::<S, P, C>(st0, input, st, s, c0) && #[trigger] P::step(st, s, st2, r0) && (r matches Ok(((c, err), t)) && c == c0 && same_position(s, t) && match r0 {
            Ok((Some(_), _)) => false,
            Ok((None, _)) => err is None,
            Err((e, _)) => err == Some(e),
        })
}
/// folding the iteration that starts in `st0`
pub open spec fn fold_rel<S: Sequence, P: IterativeParserState<S>, A, F: Fn(A, P::Output) -> A>(st0: P, init: A, f: F, input: S, r: ParseResult<S, A, P::Error>) -> bool {
    exists|st: P, s: S, a0: A, st2: P, r0: ParseResult<S, Option<P::Output>, P::Error>|
        #[trigger] folding::<S, P, A, F>(st0, input, f, init, st, s, a0) && #[trigger] P::step(st, s, st2, r0) && match r0 {
            Ok((Some(_), _)) => false,
            Ok((None, t0)) => r matches Ok((a, t)) && t == t0 && a == a0,
            Err((e, l)) => r matches Err((e1, l1)) && e1 == e && l1 == l,
        }
}
pub mod collect { use super::*;
broadcast use {tb::conv, lemmas::collecting_zero, lemmas::collecting_push, lemmas::folding_zero, lemmas::folding_push, ax_items_option, ax_items_array};
//@take collect struct Collect
//@impl collect ParserOnce Collect
//@inject
    open spec fn total(&self) -> bool { self.parser.itotal() }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|st0: P::StateOnce| #[trigger] self.parser.starts_once(st0) && collect_rel::<S, P::StateOnce, C>(st0, input, r)
    }
//@end
//@impl collect Parser Collect inherent
//@fn parse
    requires self.parser.itotal(),
    ensures exists|st0: P::State<'_>| #[trigger] self.parser.starts(st0) && collect_rel::<S, P::State<'_>, C>(st0, $0, res),
//@end
//@impl collect - Collect only=new
//@fn new
    ensures res.parser == $0,
//@end
//@take collect fn parse ...
//@fn parse
    requires state.total(),
    ensures collect_rel::<S, P, C>(state, $1, res),
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost st0 = state;
//@loop 0
    invariant $0.total(), collecting::<S, P, C>(st0, $1, $0, $rest, $collection),
//@end
}
pub mod fold { use super::*;
broadcast use {tb::conv, lemmas::collecting_zero, lemmas::collecting_push, lemmas::folding_zero, lemmas::folding_push, ax_items_option, ax_items_array};
//@take fold struct Fold
//@impl fold ParserOnce Fold
//@inject
    open spec fn total(&self) -> bool { self.parser.itotal() && forall|a: A, v: P::Output| #[trigger] self.f.requires((a, v)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        exists|st0: P::StateOnce| #[trigger] self.parser.starts_once(st0) && fold_rel::<S, P::StateOnce, A, F>(st0, self.init, self.f, input, r)
    }
//@end
//@impl fold Parser Fold inherent
//@fn parse
    requires self.parser.itotal(), forall|a: A, v: P::Output| #[trigger] self.f.requires((a, v)),
    ensures exists|st0: P::State<'_>, init: A| #[trigger] self.parser.starts(st0) && #[trigger] call_ensures(<A as Clone>::clone, (&self.init,), init) && fold_rel::<S, P::State<'_>, A, &F>(st0, init, &self.f, $0, res),
//@end
//@impl fold - Fold only=new
//@fn new
    ensures res.parser == $0, res.init == $1, res.f == $2,
//@end
//@take fold fn parse ...
//@fn parse
    requires $0.total(), forall|a: A, v: P::Output| #[trigger] $2.requires((a, v)),
    ensures fold_rel::<S, P, A, F>($0, $1, $2, $3, res),
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost st0 = $0;
//@loop 0
    invariant $0.total(), forall|a: A, v: P::Output| #[trigger] $2.requires((a, v)),
        folding::<S, P, A, F>(st0, $3, $2, $1, $0, $rest, $acc),
//@end
}
pub mod methods { use super::*; use super::{collect::Collect, fold::Fold};
//@trait iext IterativeParserExtension
//@fn collect
    ensures res.parser == self,
//@fn fold
    ensures res.parser == self, res.init == $0, res.f == $1,
//@end
}
}
fn main() {}
