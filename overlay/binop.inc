//@file bin_expr crates/parcom-parsers/src/combinator/bin_expr.rs
//@take bin_expr enum Associativity
//@trait bin_expr Operator
//@inject
    /// an operator's precedence and associativity are functions of the operator
    spec fn prec(&self) -> usize;
    spec fn left(&self) -> bool;
//@fn precedence
    ensures res == self.prec(),
//@fn associativity
    ensures res == (if self.left() { Associativity::Left } else { Associativity::Right }),
//@end
/// reading a term and then (operator, term) pairs from `input` may give these and stop at `s`
pub open spec fn reads<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, terms: Seq<T::Output>, ops: Seq<O::Output>, s: S) -> bool decreases ops.len() {
    terms.len() == ops.len() + 1 && if ops.len() == 0 { t.rel(input, Ok((terms[0], s))) }
    else { exists|m0: S, m1: S| reads(t, o, input, terms.drop_last(), ops.drop_last(), m0)
        && #[trigger] o.rel(m0, Ok((ops.last(), m1))) && #[trigger] t.rel(m1, Ok((terms.last(), s))) }
}
/// pairs were read from `input` up to `s`
pub open spec fn read<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, s: S) -> bool {
    exists|terms: Seq<T::Output>, ops: Seq<O::Output>| #[trigger] reads(t, o, input, terms, ops, s)
}
/// the attempt to read one more pair at `s` fails with `e` at `l`
pub open spec fn ends<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, s: S, e: Either<O::Error, T::Error>, l: UnknownLocation<S>) -> bool {
    match e {
        Either::First(e) => o.rel(s, Err((e, l))),
        Either::Last(e) => exists|v: O::Output, m: S| #[trigger] o.rel(s, Ok((v, m))) && t.rel(m, Err((e, l))),
    }
}
pub mod read_lemmas { use super::*;
pub broadcast proof fn read_first<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, s: S, r: ParserResult<S, T>)
    requires #[trigger] t.rel(input, r), r matches Ok((v, s1)) && s1 == s,
    ensures #[trigger] read(t, o, input, s)
{
    assert(reads(t, o, input, seq![r->Ok_0.0], Seq::<O::Output>::empty(), s));
}
pub broadcast proof fn read_pair<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, s0: S, s: S, ro: ParserResult<S, O>, m: S, rt: ParserResult<S, T>)
    requires #[trigger] read(t, o, input, s0), #[trigger] o.rel(s0, ro), #[trigger] t.rel(m, rt), ro matches Ok((v, m1)) && m1 == m, rt matches Ok((v, s1)) && s1 == s,
    ensures #[trigger] read(t, o, input, s)
{
    let (terms, ops) = choose|terms: Seq<T::Output>, ops: Seq<O::Output>| #[trigger] reads(t, o, input, terms, ops, s0);
    let terms1 = terms.push(rt->Ok_0.0);
    let ops1 = ops.push(ro->Ok_0.0);
    assert(terms1.drop_last() =~= terms);
    assert(ops1.drop_last() =~= ops);
    assert(ro == Ok::<(O::Output, S), (O::Error, UnknownLocation<S>)>((ops1.last(), m)));
    assert(rt == Ok::<(T::Output, S), (T::Error, UnknownLocation<S>)>((terms1.last(), s)));
    assert(reads(t, o, input, terms1, ops1, s));
}
pub broadcast proof fn ends_op<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, s: S, r: ParserResult<S, O>)
    requires #[trigger] read(t, o, input, s), #[trigger] o.rel(s, r), r is Err,
    ensures ends(t, o, s, Either::First(r->Err_0.0), r->Err_0.1) {}
pub broadcast proof fn ends_term<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>>(t: T, o: O, input: S, s: S, r: ParserResult<S, O>, m: S, r1: ParserResult<S, T>)
    requires #[trigger] read(t, o, input, s), #[trigger] o.rel(s, r), r is Ok, r->Ok_0.1 == m, #[trigger] t.rel(m, r1), r1 is Err,
    ensures ends(t, o, s, Either::Last(r1->Err_0.0), r1->Err_0.1)
{ assert(r == Ok::<(O::Output, S), (O::Error, UnknownLocation<S>)>((r->Ok_0.0, m))); }
}
