/// running `p` from `input` again and again may give the values `outs` and stop at `s`
pub open spec fn reps<S: Sequence, P: ParserOnce<S>>(p: P, input: S, outs: Seq<P::Output>, s: S) -> bool decreases outs.len() {
    if outs.len() == 0 { s == input }
    else { exists|mid: S| reps(p, input, outs.drop_last(), mid) && #[trigger] p.rel(mid, Ok((outs.last(), s))) }
}
pub mod reps_lemmas { use super::*;
pub broadcast proof fn reps_zero<S: Sequence, P: ParserOnce<S>>(p: P, input: S, outs: Seq<P::Output>)
    requires outs.len() == 0,
    ensures #[trigger] reps(p, input, outs, input) {}
pub broadcast proof fn reps_push<S: Sequence, P: ParserOnce<S>>(p: P, input: S, outs: Seq<P::Output>, mid: S, v: P::Output, r: ParserResult<S, P>)
    requires #[trigger] reps(p, input, outs, mid), #[trigger] p.rel(mid, r), r matches Ok((w, s)) && w == v,
    ensures r matches Ok((w, s)) && reps(p, input, #[trigger] outs.push(v), s)
{
    assert(outs.push(v).drop_last() =~= outs);
    let s = r->Ok_0.1;
    assert(r == Ok::<(P::Output, S), (P::Error, UnknownLocation<S>)>((outs.push(v).last(), s)));
    assert(reps(p, input, outs.push(v).drop_last(), mid) && p.rel(mid, Ok((outs.push(v).last(), s))));
}
}
