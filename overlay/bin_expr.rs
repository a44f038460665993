//@include core.inc
//@include shortvec.inc
//@include binop.inc
/// operator `k` belongs to the right operand of the earlier operator `j`: it binds tighter, or equally tight
/// and `j` is right associative
pub open spec fn right_of<O: Operator>(j: O, k: O) -> bool { k.prec() > j.prec() || (k.prec() == j.prec() && !j.left()) }
/// operator `k` is the root of the operators `lo .. hi`
pub open spec fn root<O: Operator>(ops: Seq<O>, lo: int, k: int, hi: int) -> bool {
    &&& lo <= k < hi
    &&& forall|j: int| lo <= j < k ==> !right_of(#[trigger] ops[j], ops[k])
    &&& forall|j: int| k < j < hi ==> right_of(ops[k], #[trigger] ops[j])
}
/// `e` is the tree of the terms `lo ..= hi` and the operators `lo .. hi` that the precedences dictate
pub open spec fn tree<T, O: Operator, E: From<T> + From<(E, O, E)>>(terms: Seq<T>, ops: Seq<O>, lo: int, hi: int, e: E) -> bool decreases hi - lo {
    if hi <= lo { from_rel::<T, E>(terms[lo], e) }
    else { exists|k: int, a: E, b: E| root(ops, lo, k, hi) && #[trigger] from_rel::<(E, O, E), E>((a, ops[k], b), e)
        && lo <= k < hi && tree(terms, ops, lo, k, a) && tree(terms, ops, k + 1, hi, b) }
}
/// `e` is the right tree of what was read from `input` up to `s`
pub open spec fn expression<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, e: E) -> bool
    where O::Output: Operator {
    exists|terms: Seq<T::Output>, ops: Seq<O::Output>| #[trigger] reads(t, o, input, terms, ops, s) && tree(terms, ops, 0, ops.len() as int, e)
}
/// operator `end - 1` is on the stack with the tree of the operators `b .. end - 1`; those later than it belong to its right operand
pub open spec fn layer<T, O: Operator, E: From<T> + From<(E, O, E)>>(terms: Seq<T>, ops: Seq<O>, n: int, top: (E, O), b: int, end: int) -> bool {
    &&& 0 <= b < end <= n && tree(terms, ops, b, end - 1, top.0) && ops[end - 1] == top.1
    &&& forall|j: int| b <= j < end - 1 ==> !right_of(#[trigger] ops[j], ops[end - 1])
    &&& forall|j: int| end <= j < n ==> right_of(ops[end - 1], #[trigger] ops[j])
}
/// the operators on the stack split the operators `0 .. end`, each with the tree left of it, and what came after each
/// belongs to its right operand
pub open spec fn covers<T, O: Operator, E: From<T> + From<(E, O, E)>>(terms: Seq<T>, ops: Seq<O>, n: int, st: Seq<(E, O)>, end: int) -> bool decreases st.len() {
    if st.len() == 0 { end == 0 }
    else { exists|b: int| #[trigger] layer(terms, ops, n, st.last(), b, end) && covers(terms, ops, n, st.drop_last(), b) }
}
/// between two pairs: the current right hand side is the last term
pub open spec fn climb<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E) -> bool
    where O::Output: Operator {
    exists|terms: Seq<T::Output>, ops: Seq<O::Output>| #[trigger] reads(t, o, input, terms, ops, s)
        && covers(terms, ops, ops.len() as int, st, ops.len() as int) && from_rel(terms.last(), rhs)
}
/// while a new pair waits for the place of its operator
pub open spec fn place<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E, op: O::Output, term: E) -> bool
    where O::Output: Operator {
    exists|terms: Seq<T::Output>, ops: Seq<O::Output>, e: int| #[trigger] reads(t, o, input, terms, ops, s) && ops.len() > 0 && ops.last() == op && from_rel(terms.last(), term)
        && #[trigger] covers(terms, ops, ops.len() - 1, st, e) && e <= ops.len() - 1 && tree(terms, ops, e, ops.len() - 1, rhs)
        && (forall|j: int| e <= j < ops.len() - 1 ==> !right_of(#[trigger] ops[j], op))
}
/// after the last pair
pub open spec fn fold<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E) -> bool
    where O::Output: Operator {
    exists|terms: Seq<T::Output>, ops: Seq<O::Output>, e: int| #[trigger] reads(t, o, input, terms, ops, s)
        && #[trigger] covers(terms, ops, ops.len() as int, st, e) && e <= ops.len() && tree(terms, ops, e, ops.len() as int, rhs)
}
/// reading has ended
pub open spec fn climbed<S: RewindSequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, prec: usize, st: Seq<(E, O::Output)>, rhs: E,
    why: Result<(O::Output, S::Anchor), Either<O::Error, T::Error>>, rest: S) -> bool where O::Output: Operator {
    match why {
        Ok(op) => op.0.prec() < prec,
        Err(e) => exists|s: S, l: UnknownLocation<S>| climb(t, o, input, s, st, rhs) && #[trigger] ends(t, o, s, e, l) && !e.fatal() && same_position(s, rest),
    }
}
/// reading has ended, the stack is being folded
pub open spec fn folding<S: RewindSequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, prec: usize, st: Seq<(E, O::Output)>, rhs: E,
    why: Result<(O::Output, S::Anchor), Either<O::Error, T::Error>>, rest: S) -> bool where O::Output: Operator {
    match why {
        Ok(op) => op.0.prec() < prec,
        Err(e) => exists|s: S, l: UnknownLocation<S>| fold(t, o, input, s, st, rhs) && #[trigger] ends(t, o, s, e, l) && !e.fatal() && same_position(s, rest),
    }
}
pub open spec fn expr_rel<S: RewindSequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S,
    r: ParseResult<S, (E, Either<O::Error, T::Error>), Either<O::Error, T::Error>>) -> bool where O::Output: Operator {
    ||| exists|s: S, e: E, why: Either<O::Error, T::Error>, l: UnknownLocation<S>| #[trigger] expression(t, o, input, s, e) && #[trigger] ends(t, o, s, why, l)
        && !why.fatal() && (r matches Ok(((x, f), rest)) && x == e && f == why && same_position(s, rest))
    ||| exists|s: S, why: Either<O::Error, T::Error>, l: UnknownLocation<S>| #[trigger] read(t, o, input, s) && #[trigger] ends(t, o, s, why, l)
        && why.fatal() && (r matches Err((f, m)) && f == why && m == l)
    ||| exists|r0: ParserResult<S, T>| #[trigger] t.rel(input, r0) && r0 is Err && (r matches Err((e, l)) && e == Either::<O::Error, T::Error>::Last(r0->Err_0.0) && l == r0->Err_0.1)
}
pub mod lemmas { use super::*;
pub proof fn tree_ext<T, O: Operator, E: From<T> + From<(E, O, E)>>(terms: Seq<T>, ops: Seq<O>, terms1: Seq<T>, ops1: Seq<O>, lo: int, hi: int, e: E)
    requires tree(terms, ops, lo, hi, e), lo <= hi, forall|j: int| lo <= j <= hi ==> terms[j] == terms1[j], forall|j: int| lo <= j < hi ==> ops[j] == ops1[j],
    ensures tree(terms1, ops1, lo, hi, e)
    decreases hi - lo
{
    if lo < hi {
        let (k, a, b) = choose|k: int, a: E, b: E| root(ops, lo, k, hi) && #[trigger] from_rel::<(E, O, E), E>((a, ops[k], b), e)
            && lo <= k < hi && tree(terms, ops, lo, k, a) && tree(terms, ops, k + 1, hi, b);
        tree_ext(terms, ops, terms1, ops1, lo, k, a);
        tree_ext(terms, ops, terms1, ops1, k + 1, hi, b);
        assert(root(ops1, lo, k, hi));
        assert(from_rel::<(E, O, E), E>((a, ops1[k], b), e));
    }
}
/// one more pair, whose operator belongs to the right operand of all operators on the stack below `n1`
pub proof fn covers_ext<T, O: Operator, E: From<T> + From<(E, O, E)>>(terms: Seq<T>, ops: Seq<O>, n: int, terms1: Seq<T>, ops1: Seq<O>, n1: int, st: Seq<(E, O)>, end: int)
    requires covers(terms, ops, n, st, end), 0 <= n <= n1, n < terms.len(), n <= ops.len(), n < terms1.len(), n <= ops1.len(),
        forall|j: int| 0 <= j <= n ==> terms[j] == terms1[j], forall|j: int| 0 <= j < n ==> ops[j] == ops1[j],
        st.len() > 0 ==> forall|j: int| n <= j < n1 ==> right_of(st.last().1, #[trigger] ops1[j]),
    ensures covers(terms1, ops1, n1, st, end)
    decreases st.len()
{
    if st.len() > 0 {
        let b = choose|b: int| #[trigger] layer(terms, ops, n, st.last(), b, end) && covers(terms, ops, n, st.drop_last(), b);
        if st.len() > 1 {
            let st0 = st.drop_last();
            assert(covers(terms, ops, n, st0, b));
            assert(st0.len() > 0);
            let b0 = choose|b0: int| #[trigger] layer(terms, ops, n, st0.last(), b0, b) && covers(terms, ops, n, st0.drop_last(), b0);
            assert(right_of(ops[b - 1], ops[end - 1]));
            assert forall|j: int| n <= j < n1 implies right_of(st0.last().1, #[trigger] ops1[j]) by { assert(right_of(st.last().1, ops1[j])); }
        }
        covers_ext(terms, ops, n, terms1, ops1, n1, st.drop_last(), b);
        tree_ext(terms, ops, terms1, ops1, b, end - 1, st.last().0);
        assert(forall|j: int| b <= j < end - 1 ==> !right_of(#[trigger] ops1[j], ops1[end - 1]));
        assert forall|j: int| end <= j < n1 implies right_of(ops1[end - 1], #[trigger] ops1[j]) by {
            if j < n { assert(right_of(ops[end - 1], ops[j])); } else { assert(right_of(st.last().1, ops1[j])); }
        }
        assert(layer(terms1, ops1, n1, st.last(), b, end));
    }
}
pub broadcast proof fn climb_start<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E, r: ParserResult<S, T>)
    where O::Output: Operator
    requires st.len() == 0, #[trigger] t.rel(input, r), r matches Ok((v, s1)) && s1 == s && from_rel::<T::Output, E>(v, rhs),
    ensures #[trigger] climb(t, o, input, s, st, rhs)
{
    let terms = seq![r->Ok_0.0];
    let ops = Seq::<O::Output>::empty();
    assert(reads(t, o, input, terms, ops, s));
    assert(covers(terms, ops, 0, st, 0));
}
pub broadcast proof fn climb_pair<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s0: S, s: S, st: Seq<(E, O::Output)>, rhs: E, ro: ParserResult<S, O>, m: S, rt: ParserResult<S, T>, op: O::Output, term: E)
    where O::Output: Operator
    requires #[trigger] climb(t, o, input, s0, st, rhs), #[trigger] o.rel(s0, ro), #[trigger] t.rel(m, rt), ro matches Ok((v, m1)) && m1 == m && v == op,
        rt matches Ok((v, s1)) && s1 == s && from_rel::<T::Output, E>(v, term),
    ensures #[trigger] place(t, o, input, s, st, rhs, op, term)
{
    let (terms, ops) = choose|terms: Seq<T::Output>, ops: Seq<O::Output>| #[trigger] reads(t, o, input, terms, ops, s0)
        && covers(terms, ops, ops.len() as int, st, ops.len() as int) && from_rel(terms.last(), rhs);
    let n = ops.len() as int;
    let terms1 = terms.push(rt->Ok_0.0);
    let ops1 = ops.push(op);
    assert(terms1.drop_last() =~= terms);
    assert(ops1.drop_last() =~= ops);
    assert(ro == Ok::<(O::Output, S), (O::Error, UnknownLocation<S>)>((ops1.last(), m)));
    assert(rt == Ok::<(T::Output, S), (T::Error, UnknownLocation<S>)>((terms1.last(), s)));
    assert(reads(t, o, input, terms1, ops1, s));
    covers_ext(terms, ops, n, terms1, ops1, n, st, n);
    assert(tree(terms1, ops1, n, n, rhs));
    assert(covers(terms1, ops1, ops1.len() - 1, st, n));
}
/// the top of the stack binds at least as tight as the new operator: it is complete
pub broadcast proof fn place_pop<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E, op: O::Output, term: E, st1: Seq<(E, O::Output)>, rhs1: E)
    where O::Output: Operator
    requires #[trigger] place(t, o, input, s, st, rhs, op, term), st.len() > 0, st1 == st.drop_last(), !right_of(st.last().1, op),
        from_rel((st.last().0, st.last().1, rhs), rhs1),
    ensures #[trigger] place(t, o, input, s, st1, rhs1, op, term)
{
    let (terms, ops, e) = choose|terms: Seq<T::Output>, ops: Seq<O::Output>, e: int| #[trigger] reads(t, o, input, terms, ops, s) && ops.len() > 0 && ops.last() == op && from_rel(terms.last(), term)
        && #[trigger] covers(terms, ops, ops.len() - 1, st, e) && e <= ops.len() - 1 && tree(terms, ops, e, ops.len() - 1, rhs)
        && (forall|j: int| e <= j < ops.len() - 1 ==> !right_of(#[trigger] ops[j], op));
    let n = ops.len() - 1;
    assert(covers(terms, ops, n, st, e));
    let b = choose|b: int| #[trigger] layer(terms, ops, n, st.last(), b, e) && covers(terms, ops, n, st.drop_last(), b);
    assert(root(ops, b, e - 1, n));
    assert(from_rel::<(E, O::Output, E), E>((st.last().0, ops[e - 1], rhs), rhs1));
    assert(tree(terms, ops, e, n, rhs));
    assert(tree(terms, ops, b, n, rhs1));
    assert forall|j: int| b <= j < n implies !right_of(#[trigger] ops[j], op) by {
        if j < e - 1 { assert(!right_of(ops[j], ops[e - 1])); }
    }
    assert(covers(terms, ops, ops.len() - 1, st1, b));
}
/// the new operator belongs to the right operand of the top of the stack: it goes on top
pub broadcast proof fn place_push<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E, op: O::Output, term: E, st1: Seq<(E, O::Output)>)
    where O::Output: Operator
    requires #[trigger] place(t, o, input, s, st, rhs, op, term), st1 == st.push((rhs, op)), st.len() > 0 ==> right_of(st.last().1, op),
    ensures #[trigger] climb(t, o, input, s, st1, term)
{
    let (terms, ops, e) = choose|terms: Seq<T::Output>, ops: Seq<O::Output>, e: int| #[trigger] reads(t, o, input, terms, ops, s) && ops.len() > 0 && ops.last() == op && from_rel(terms.last(), term)
        && #[trigger] covers(terms, ops, ops.len() - 1, st, e) && e <= ops.len() - 1 && tree(terms, ops, e, ops.len() - 1, rhs)
        && (forall|j: int| e <= j < ops.len() - 1 ==> !right_of(#[trigger] ops[j], op));
    let n = ops.len() - 1;
    covers_ext(terms, ops, n, terms, ops, n + 1, st, e);
    assert(st1.drop_last() =~= st);
    if st.len() == 0 { assert(e == 0); }
    assert(covers(terms, ops, n + 1, st1.drop_last(), e));
    assert(tree(terms, ops, e, n, st1.last().0));
    assert(layer(terms, ops, n + 1, st1.last(), e, n + 1));
    assert(covers(terms, ops, n + 1, st1, n + 1));
}
pub broadcast proof fn fold_start<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E)
    where O::Output: Operator
    requires climb(t, o, input, s, st, rhs),
    ensures #[trigger] fold(t, o, input, s, st, rhs)
{
    let (terms, ops) = choose|terms: Seq<T::Output>, ops: Seq<O::Output>| #[trigger] reads(t, o, input, terms, ops, s)
        && covers(terms, ops, ops.len() as int, st, ops.len() as int) && from_rel(terms.last(), rhs);
    assert(tree(terms, ops, ops.len() as int, ops.len() as int, rhs));
    assert(covers(terms, ops, ops.len() as int, st, ops.len() as int));
}
pub broadcast proof fn fold_pop<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E, st1: Seq<(E, O::Output)>, rhs1: E)
    where O::Output: Operator
    requires #[trigger] fold(t, o, input, s, st, rhs), st.len() > 0, st1 == st.drop_last(), from_rel((st.last().0, st.last().1, rhs), rhs1),
    ensures #[trigger] fold(t, o, input, s, st1, rhs1)
{
    let (terms, ops, e) = choose|terms: Seq<T::Output>, ops: Seq<O::Output>, e: int| #[trigger] reads(t, o, input, terms, ops, s)
        && #[trigger] covers(terms, ops, ops.len() as int, st, e) && e <= ops.len() && tree(terms, ops, e, ops.len() as int, rhs);
    let n = ops.len() as int;
    assert(covers(terms, ops, n, st, e));
    let b = choose|b: int| #[trigger] layer(terms, ops, n, st.last(), b, e) && covers(terms, ops, n, st.drop_last(), b);
    assert(root(ops, b, e - 1, n));
    assert(from_rel::<(E, O::Output, E), E>((st.last().0, ops[e - 1], rhs), rhs1));
    assert(tree(terms, ops, e, n, rhs));
    assert(tree(terms, ops, b, n, rhs1));
    assert(covers(terms, ops, n, st1, b));
}
pub broadcast proof fn fold_end<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E)
    where O::Output: Operator
    requires #[trigger] fold(t, o, input, s, st, rhs), st.len() == 0,
    ensures expression(t, o, input, s, rhs)
{
}
pub broadcast proof fn climb_read<S: Sequence, T: ParserOnce<S>, O: ParserOnce<S>, E: From<T::Output> + From<(E, O::Output, E)>>(t: T, o: O, input: S, s: S, st: Seq<(E, O::Output)>, rhs: E)
    where O::Output: Operator
    requires #[trigger] climb(t, o, input, s, st, rhs),
    ensures read(t, o, input, s)
{
}
}
pub mod unit { use super::*;
broadcast use {tb::conv, shortvec::push_back, lemmas::climb_start, lemmas::climb_pair, lemmas::place_pop, lemmas::place_push, lemmas::fold_start, lemmas::fold_pop, lemmas::fold_end, lemmas::climb_read, read_lemmas::ends_op, read_lemmas::ends_term};
//@take bin_expr struct BinExprParser
//@impl bin_expr ParserOnce BinExprParser
//@inject
    open spec fn total(&self) -> bool { self.parser_term.total() && self.parser_op.total() && forall|v: PTerm::Output| #[trigger] call_requires(<Expr as From<PTerm::Output>>::from, (v,))
        && forall|v: (Expr, POp::Output, Expr)| #[trigger] call_requires(<Expr as From<(Expr, POp::Output, Expr)>>::from, (v,)) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool { expr_rel(self.parser_term, self.parser_op, input, r) }
//@end
//@impl bin_expr Parser BinExprParser
//@end
//@impl bin_expr - BinExprParser only=new,parse_impl
//@fn new
    ensures res.parser_term == $0, res.parser_op == $1,
//@fn parse_impl loops=3
    requires self.total(),
    ensures match res {
        Ok(((e, Err(why)), t)) => expr_rel(self.parser_term, self.parser_op, $0, Ok(((e, why), t))),
        Ok(((e, Ok(op)), t)) => op.0.prec() < $1,
        Err(e) => expr_rel::<S, PTerm, POp, Expr>(self.parser_term, self.parser_op, $0, Err(e)),
    },
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 0
    invariant_except_break self.total(), climb(self.parser_term, self.parser_op, $0, $rest, $stack@, $rhs),
    ensures climbed(self.parser_term, self.parser_op, $0, $1, $stack@, $rhs, $reason, $rest),
//@loop 1
    invariant_except_break place(self.parser_term, self.parser_op, $0, $rest, $stack@, $rhs, $op, $term),
    ensures climb(self.parser_term, self.parser_op, $0, $rest, $stack@, $rhs),
//@loop 2
    invariant folding(self.parser_term, self.parser_op, $0, $1, $stack@, $rhs, $reason, $rest),
    ensures $stack@.len() == 0,
//@end
}
}
fn main() {}
