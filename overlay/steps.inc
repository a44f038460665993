/// stepping the iteration `st0` from `input` again and again may yield the values `outs` and stop
/// in state `st` at `s`
pub open spec fn steps<S: Sequence, P: IterativeParserState<S>>(st0: P, input: S, outs: Seq<P::Output>, st: P, s: S) -> bool decreases outs.len() {
    if outs.len() == 0 { s == input && st == st0 }
    else { exists|mid_st: P, mid: S| steps(st0, input, outs.drop_last(), mid_st, mid) && #[trigger] P::step(mid_st, mid, st, Ok((Some(outs.last()), s))) }
}
pub mod steps_lemmas { use super::*;
pub broadcast proof fn steps_zero<S: Sequence, P: IterativeParserState<S>>(st0: P, input: S, outs: Seq<P::Output>)
    requires outs.len() == 0,
    ensures #[trigger] steps(st0, input, outs, st0, input) {}
pub broadcast proof fn steps_push<S: Sequence, P: IterativeParserState<S>>(st0: P, input: S, outs: Seq<P::Output>, st: P, s: S, st2: P, r: ParseResult<S, Option<P::Output>, P::Error>, v: P::Output)
    requires #[trigger] steps(st0, input, outs, st, s), #[trigger] P::step(st, s, st2, r), r matches Ok((Some(w), s2)) && w == v,
    ensures r matches Ok((Some(w), s2)) && steps(st0, input, #[trigger] outs.push(v), st2, s2)
{
    assert(outs.push(v).drop_last() =~= outs);
    let s2 = r->Ok_0.1;
    assert(r == Ok::<(Option<P::Output>, S), (P::Error, UnknownLocation<S>)>((Some(outs.push(v).last()), s2)));
}
}
