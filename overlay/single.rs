//@include core_head.inc
//@include seg.inc
//@include core_tail.inc
//@include str.inc
//@file pslice crates/parcom-core/src/primitive/slice.rs
//@file pstr crates/parcom-core/src/primitive/str.rs
//@file any crates/parcom-parsers/src/primitive/any.rs
//@file the crates/parcom-parsers/src/primitive/the.rs
//@include miss.inc
pub mod segments { use super::*;
broadcast use vstd::utf8::group_utf8_lib;
//@impl pslice SequenceSegment [T]
//@inject
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    open spec fn num(l: usize) -> nat { l as nat }
    open spec fn valid(s: Seq<T>) -> bool { true }
    open spec fn cuts(s: Seq<T>, n: nat) -> bool { n <= s.len() }
    proof fn valid_items(&self) {}
    proof fn lengths() {}
//@end
//@impl pstr SequenceSegment str
//@inject
    type Item = u8;
    open spec fn items(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn num(l: BytesDelta) -> nat { l.0 as nat }
    open spec fn valid(s: Seq<u8>) -> bool { valid_utf8(s) }
    open spec fn cuts(s: Seq<u8>, n: nat) -> bool { is_char_boundary(s, n as int) }
    proof fn valid_items(&self) { broadcast use vstd::utf8::group_utf8_lib; }
    proof fn lengths() {}
//@end
/// the text starts with character `c`
pub open spec fn starts_with_char(b: Seq<u8>, c: char) -> bool {
    let e = encode_scalar(c as u32);
    e.len() <= b.len() && b.take(e.len() as int) == e
}
proof fn dec(b: Seq<u8>, c: char) requires starts_with_char(b, c) ensures decode_first_scalar(b) == c as u32, length_of_first_scalar(b) == encode_scalar(c as u32).len() {
    broadcast use vstd::utf8::group_utf8_lib;
    let e = encode_scalar(c as u32);
    let cs = seq![c];
    assert(cs.drop_first() =~= Seq::<char>::empty());
    reveal_with_fuel(encode_utf8, 3);
    assert(encode_utf8(cs) =~= e);
    encode_utf8_first_scalar(cs);
    assert(decode_first_scalar(e) == c as u32);
    assert(b[0] == b.take(e.len() as int)[0]);
    assert(e.len() >= 2 ==> b[1] == b.take(e.len() as int)[1]);
    assert(e.len() >= 3 ==> b[2] == b.take(e.len() as int)[2]);
    assert(e.len() >= 4 ==> b[3] == b.take(e.len() as int)[3]);
}
/// a text starts with the first character of its first non-empty segment
pub broadcast proof fn first_char(s: &str, b: Seq<u8>)
    requires s@.len() > 0, s.spec_bytes().len() <= b.len(), s.spec_bytes() == b.take(s.spec_bytes().len() as int),
    ensures #![trigger b.take(s.spec_bytes().len() as int)] starts_with_char(b, s@[0]),
{
    broadcast use vstd::utf8::group_utf8_lib;
    let e = encode_scalar(s@[0] as u32);
    assert(s.spec_bytes() == e + encode_utf8(s@.drop_first()));
    assert(b.take(e.len() as int) =~= e);
}
/// a text starts with one character at most
pub broadcast proof fn one_char(b: Seq<u8>, c: char, d: char)
    requires #[trigger] starts_with_char(b, c), #[trigger] starts_with_char(b, d), ensures c == d
{ dec(b, c); dec(b, d); }
pub broadcast proof fn some_char(b: Seq<u8>, c: char)
    requires #[trigger] starts_with_char(b, c), ensures b.len() > 0
{ broadcast use vstd::utf8::group_utf8_lib; }
pub broadcast proof fn char_cut(b: Seq<u8>, c: char)
    requires #[trigger] starts_with_char(b, c), valid_utf8(b), ensures is_char_boundary(b, encode_scalar(c as u32).len() as int)
{
    broadcast use vstd::utf8::group_utf8_lib;
    dec(b, c);
    let n = length_of_first_scalar(b);
    is_char_boundary_start_end_of_seq(pop_first_scalar(b));
    assert(is_char_boundary(pop_first_scalar(b), 0));
    assert(is_char_boundary(b, n as int));
}
pub broadcast proof fn no_char(s: &str)
    requires s@.len() == 0, ensures (#[trigger] s.spec_bytes()).len() == 0
{}
}
pub use segments::*;
pub mod any { use super::*;
broadcast use {segments::first_char, segments::one_char, segments::some_char, segments::no_char, seg_lemmas::skip_all, seg_lemmas::skip_none, tb::conv, seg_lemmas::moved_on, seg_lemmas::moved_left, seg_lemmas::valid_left, segments::char_cut};
//@take any struct AnyChar
//@impl any - AnyChar only=new
//@end
//@take any fn any_char ...
//@fn any_char
//@end
//@impl any ParserOnce AnyChar
//@inject
    open spec fn total(&self) -> bool { roomy::<S>() && forall|l: BytesDelta| #[trigger] S::num(l) == l.0 as nat }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        if input.items().len() == 0 { r matches Err((e, l)) && !e.fatal() && S::moved(input, 0, l.0) }
        else { r matches Ok((c, s)) && starts_with_char(input.items(), c) && S::moved(input, encode_scalar(c as u32).len(), s) }
    }
//@end
//@impl any Parser AnyChar
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost i0 = $0;
proof { S::moved_none($0); }
//@loop 0
    invariant $segments.rest() == i0.items(),
//@end
//@take any struct AnyItem
//@impl any - AnyItem only=new
//@end
//@take any fn any_item ...
//@fn any_item
//@end
//@impl any ParserOnce AnyItem
//@inject
    open spec fn total(&self) -> bool { roomy::<S>() && forall|l: usize| #[trigger] S::num(l) == l as nat }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        if input.items().len() == 0 { r matches Err((e, l)) && !e.fatal() && S::moved(input, 0, l.0) }
        else { r matches Ok((c, s)) && vstd::pervasive::cloned(input.items()[0], c) && S::moved(input, 1, s) }
    }
//@end
//@impl any Parser AnyItem
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost i0 = $0;
proof { S::moved_none($0); }
//@loop 0
    invariant $segments.rest() == i0.items(),
//@end
}
pub mod the { use super::*;
broadcast use {segments::first_char, segments::one_char, segments::some_char, segments::no_char, seg_lemmas::skip_all, seg_lemmas::skip_none, tb::conv, seg_lemmas::moved_on, seg_lemmas::moved_left, seg_lemmas::valid_left, segments::char_cut};
//@take the struct TheChar
//@take the fn the_char ...
//@fn the_char
    ensures res.c == $0,
//@end
//@impl the ParserOnce TheChar
//@inject
    open spec fn total(&self) -> bool { roomy::<S>() && forall|l: BytesDelta| #[trigger] S::num(l) == l.0 as nat }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        if starts_with_char(input.items(), self.c) { r matches Ok((_, s)) && S::moved(input, encode_scalar(self.c as u32).len(), s) }
        else { r matches Err((e, l)) && !e.fatal() && S::moved(input, 0, l.0) }
    }
//@end
//@impl the Parser TheChar
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost i0 = $0;
proof { S::moved_none($0); }
//@loop 0
    invariant $segments.rest() == i0.items(),
//@end
//@take the struct TheItem
//@take the fn the_item ...
//@fn the_item
    ensures res.item == $0,
//@end
//@impl the ParserOnce TheItem
//@inject
    open spec fn total(&self) -> bool { roomy::<S>() && <T as PartialEqSpec>::obeys_eq_spec() && symmetric::<T>() && forall|l: usize| #[trigger] S::num(l) == l as nat }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        if input.items().len() > 0 && PartialEqSpec::eq_spec(&input.items()[0], &self.item) { r matches Ok((_, s)) && S::moved(input, 1, s) }
        else { r matches Err((e, l)) && !e.fatal() && S::moved(input, 0, l.0) }
    }
//@end
//@impl the Parser TheItem
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost i0 = $0;
proof { S::moved_none($0); }
//@loop 0
    invariant $segments.rest() == i0.items(),
//@end
}
}
fn main() {}
