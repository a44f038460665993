//@include core_head.inc
//@include seg.inc
//@include core_tail.inc
//@include str.inc
//@file pslice crates/parcom-core/src/primitive/slice.rs
//@file pstr crates/parcom-core/src/primitive/str.rs
//@file atom crates/parcom-parsers/src/primitive/atom.rs
//@include miss.inc
pub mod pattern { use super::*;
/// `p` is a prefix of `s`
pub open spec fn prefix<A>(e: spec_fn(A, A) -> bool, p: Seq<A>, s: Seq<A>) -> bool {
    p.len() <= s.len() && all_equal(e, s.take(p.len() as int), p)
}
pub broadcast proof fn prefix_split<A>(e: spec_fn(A, A) -> bool, p: Seq<A>, s: Seq<A>, k: int)
    requires 0 <= k <= p.len(), k <= s.len()
    ensures #![trigger prefix(e, p, s), s.skip(k)] prefix(e, p, s) == (all_equal(e, s.take(k), p.take(k)) && prefix(e, p.skip(k), s.skip(k)))
{
    if prefix(e, p, s) {
        assert forall|i: int| 0 <= i < k implies #[trigger] e(s.take(k)[i], p.take(k)[i]) by { assert(e(s.take(p.len() as int)[i], p[i])); }
        let (p1, s1) = (p.skip(k), s.skip(k).take(p.len() - k));
        assert forall|i: int| 0 <= i < p1.len() implies #[trigger] e(s1[i], p1[i]) by { assert(e(s.take(p.len() as int)[i + k], p[i + k])); }
    }
    if all_equal(e, s.take(k), p.take(k)) && prefix(e, p.skip(k), s.skip(k)) {
        let s0 = s.take(p.len() as int);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] e(s0[i], p[i]) by {
            if i < k { assert(e(s.take(k)[i], p.take(k)[i])); }
            else { assert(e(s.skip(k).take(p.len() - k)[i - k], p.skip(k)[i - k])); }
        }
    }
}
//@trait atom AtomPattern
//@inject
    /// what the pattern spells
    spec fn pat(&self) -> ItemsOf<Self::Segment>;
    /// an item of the input is equal to an item of the pattern
    spec fn eq_item() -> spec_fn(<Self::Segment as SequenceSegment>::Item, <Self::Segment as SequenceSegment>::Item) -> bool;
    /// `==` of the items is what its specification says, and symmetric
    spec fn lawful() -> bool;
    /// comparing segments compares their items
    proof fn eq_items()
        requires Self::lawful(),
        ensures <Self::Segment as PartialEqSpec>::obeys_eq_spec(),
            forall|a: &Self::Segment, b: &Self::Segment| #[trigger] a.eq_spec(b) == all_equal(Self::eq_item(), a.items(), b.items()),
            forall|a: &Self::Segment, b: &Self::Segment| #[trigger] a.eq_spec(b) == all_equal(Self::eq_item(), b.items(), a.items());
    /// where one segment ends, another one that starts like it can be split
    proof fn cuts()
        requires Self::lawful(),
        ensures forall|a: &Self::Segment, b: ItemsOf<Self::Segment>| #![trigger a.items(), <Self::Segment as SequenceSegment>::cuts(b, a.items().len())]
            <Self::Segment as SequenceSegment>::valid(b) && a.items().len() <= b.len()
            && (all_equal(Self::eq_item(), b.take(a.items().len() as int), a.items()) || all_equal(Self::eq_item(), a.items(), b.take(a.items().len() as int))) ==> <Self::Segment as SequenceSegment>::cuts(b, a.items().len());
//@fn pattern
    ensures res.items() == self.pat(),
//@end
}
pub use pattern::*;
/// what a segment that can be split everywhere has without saying so
pub mod splitting { use super::*;
//@free segment SequenceSegment
//@fn split_at_checked
    requires forall|n: nat| n <= $0.items().len() ==> #[trigger] VxSelf::cuts($0.items(), n),
    ensures match res {
        Some((a, b)) => VxSelf::num($1) <= $0.items().len() && a.items() == $0.items().take(VxSelf::num($1) as int) && b.items() == $0.items().skip(VxSelf::num($1) as int),
        None => VxSelf::num($1) > $0.items().len(),
    },
//@head
    proof { VxSelf::lengths(); }
//@end
}
pub mod atom { use super::*;
broadcast use {pattern::prefix_split, seg_lemmas::take_take, tb::conv, seg_lemmas::skip_skip, seg_lemmas::moved_on, seg_lemmas::moved_left, seg_lemmas::valid_left, seg_lemmas::valid_segment};
//@take atom struct Atom
//@impl atom - Atom only=new
//@fn new
    ensures res.pattern == $0,
//@end
//@take atom fn atom ...
//@fn atom
    ensures res.pattern == $0,
//@end
//@impl atom ParserOnce Atom
//@inject
    open spec fn total(&self) -> bool { roomy::<S>() && P::lawful() && forall|l: S::Length| #[trigger] S::num(l) == <P::Segment as SequenceSegment>::num(l) }
    open spec fn rel(&self, input: S, r: ParserResult<S, Self>) -> bool {
        if prefix(P::eq_item(), self.pattern.pat(), input.items()) { r matches Ok((_, s)) && S::moved(input, self.pattern.pat().len(), s) }
        else { r matches Err((e, l)) && !e.fatal() && S::moved(input, 0, l.0) }
    }
//@end
//@impl atom Parser Atom
//@fn parse
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@head
let ghost i0 = $0;
proof { S::moved_none($0); <P::Segment as SequenceSegment>::lengths(); P::eq_items(); P::cuts(); }
//@loop 0
    invariant $remain.items().len() == 0 ==> self.pattern.pat().len() == 0,
        prefix(P::eq_item(), $remain.items(), $segments.rest()) == prefix(P::eq_item(), self.pattern.pat(), i0.items()),
//@end
}
pub mod patterns { use super::*;
proof fn turned<A>(e: spec_fn(A, A) -> bool, a: Seq<A>, b: Seq<A>)
    requires forall|x: A, y: A| #[trigger] e(x, y) == e(y, x), ensures all_equal(e, a, b) ==> all_equal(e, b, a)
{
    if all_equal(e, a, b) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] e(b[i], a[i]) by { assert(e(a[i], b[i])); }
    }
}
//@impl pslice SequenceSegment [T]
//@inject
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    open spec fn num(l: usize) -> nat { l as nat }
    open spec fn valid(s: Seq<T>) -> bool { true }
    open spec fn cuts(s: Seq<T>, n: nat) -> bool { n <= s.len() }
    proof fn valid_items(&self) {}
    proof fn lengths() {}
//@end
//@impl atom AtomPattern &[T]
//@inject
    open spec fn pat(&self) -> Seq<T> { self@ }
    open spec fn eq_item() -> spec_fn(T, T) -> bool { |a: T, b: T| <T as PartialEqSpec>::eq_spec(&a, &b) }
    open spec fn lawful() -> bool { <T as PartialEqSpec>::obeys_eq_spec() && symmetric::<T>() }
    proof fn eq_items() {
        assert forall|a: &[T], b: &[T]| #[trigger] <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), a.items(), b.items()) by {
            slice_eq(Self::eq_item(), a, b);
        }
        assert forall|a: &[T], b: &[T]| #[trigger] <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), b.items(), a.items()) by {
            slice_eq(Self::eq_item(), a, b);
            turned(Self::eq_item(), a@, b@);
            turned(Self::eq_item(), b@, a@);
        }
    }
    proof fn cuts() {}
//@end
//@impl atom AtomPattern Vec
//@inject
    open spec fn pat(&self) -> Seq<T> { self@ }
    open spec fn eq_item() -> spec_fn(T, T) -> bool { |a: T, b: T| <T as PartialEqSpec>::eq_spec(&a, &b) }
    open spec fn lawful() -> bool { <T as PartialEqSpec>::obeys_eq_spec() && symmetric::<T>() }
    proof fn eq_items() {
        assert forall|a: &[T], b: &[T]| #[trigger] <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), a.items(), b.items()) by {
            slice_eq(Self::eq_item(), a, b);
        }
        assert forall|a: &[T], b: &[T]| #[trigger] <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), b.items(), a.items()) by {
            slice_eq(Self::eq_item(), a, b);
            turned(Self::eq_item(), a@, b@);
            turned(Self::eq_item(), b@, a@);
        }
    }
    proof fn cuts() {}
//@end
//@impl atom AtomPattern [T;N]
//@inject
    open spec fn pat(&self) -> Seq<T> { self@ }
    open spec fn eq_item() -> spec_fn(T, T) -> bool { |a: T, b: T| <T as PartialEqSpec>::eq_spec(&a, &b) }
    open spec fn lawful() -> bool { <T as PartialEqSpec>::obeys_eq_spec() && symmetric::<T>() }
    proof fn eq_items() {
        assert forall|a: &[T], b: &[T]| #[trigger] <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), a.items(), b.items()) by {
            slice_eq(Self::eq_item(), a, b);
        }
        assert forall|a: &[T], b: &[T]| #[trigger] <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), b.items(), a.items()) by {
            slice_eq(Self::eq_item(), a, b);
            turned(Self::eq_item(), a@, b@);
            turned(Self::eq_item(), b@, a@);
        }
    }
    proof fn cuts() {}
//@end
//@impl pstr SequenceSegment str
//@inject
    type Item = u8;
    open spec fn items(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn num(l: BytesDelta) -> nat { l.0 as nat }
    open spec fn valid(s: Seq<u8>) -> bool { valid_utf8(s) }
    open spec fn cuts(s: Seq<u8>, n: nat) -> bool { is_char_boundary(s, n as int) }
    proof fn valid_items(&self) { broadcast use vstd::utf8::group_utf8_lib; }
    proof fn lengths() {}
//@end
//@impl atom AtomPattern &str
//@inject
    open spec fn pat(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn eq_item() -> spec_fn(u8, u8) -> bool { |a: u8, b: u8| a == b }
    open spec fn lawful() -> bool { true }
    proof fn eq_items() {
        assert forall|a: &str, b: &str| #[trigger] <str as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), a.items(), b.items()) by {
            str_eq(a, b);
            let e = Self::eq_item();
            if all_equal(e, a.items(), b.items()) {
                assert forall|i: int| 0 <= i < b.items().len() implies a.items()[i] == b.items()[i] by { assert(e(a.items()[i], b.items()[i])); }
                assert(a.items() =~= b.items());
            }
        }
        assert forall|a: &str, b: &str| #[trigger] <str as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), b.items(), a.items()) by {
            str_eq(a, b);
            let e = Self::eq_item();
            if all_equal(e, b.items(), a.items()) {
                assert forall|i: int| 0 <= i < a.items().len() implies a.items()[i] == b.items()[i] by { assert(e(b.items()[i], a.items()[i])); }
                assert(a.items() =~= b.items());
            }
        }
    }
    proof fn cuts() {
        assert forall|a: &str, b: Seq<u8>| #![trigger a.items(), <str as SequenceSegment>::cuts(b, a.items().len())] valid_utf8(b) && a.items().len() <= b.len()
            && (all_equal(Self::eq_item(), b.take(a.items().len() as int), a.items()) || all_equal(Self::eq_item(), a.items(), b.take(a.items().len() as int))) implies <str as SequenceSegment>::cuts(b, a.items().len()) by {
            let (e, x, y) = (Self::eq_item(), a.items(), b.take(a.items().len() as int));
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(e(x[i], y[i]) || e(y[i], x[i])); }
            assert(x =~= y);
            broadcast use vstd::utf8::group_utf8_lib;
            self_sync(a.items(), b);
        }
    }
//@end
//@impl atom AtomPattern String
//@inject
    open spec fn pat(&self) -> Seq<u8> { encode_utf8(self@) }
    open spec fn eq_item() -> spec_fn(u8, u8) -> bool { |a: u8, b: u8| a == b }
    open spec fn lawful() -> bool { true }
    proof fn eq_items() {
        assert forall|a: &str, b: &str| #[trigger] <str as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), a.items(), b.items()) by {
            str_eq(a, b);
            let e = Self::eq_item();
            if all_equal(e, a.items(), b.items()) {
                assert forall|i: int| 0 <= i < b.items().len() implies a.items()[i] == b.items()[i] by { assert(e(a.items()[i], b.items()[i])); }
                assert(a.items() =~= b.items());
            }
        }
        assert forall|a: &str, b: &str| #[trigger] <str as PartialEqSpec>::eq_spec(a, b) == all_equal(Self::eq_item(), b.items(), a.items()) by {
            str_eq(a, b);
            let e = Self::eq_item();
            if all_equal(e, b.items(), a.items()) {
                assert forall|i: int| 0 <= i < a.items().len() implies a.items()[i] == b.items()[i] by { assert(e(b.items()[i], a.items()[i])); }
                assert(a.items() =~= b.items());
            }
        }
    }
    proof fn cuts() {
        assert forall|a: &str, b: Seq<u8>| #![trigger a.items(), <str as SequenceSegment>::cuts(b, a.items().len())] valid_utf8(b) && a.items().len() <= b.len()
            && (all_equal(Self::eq_item(), b.take(a.items().len() as int), a.items()) || all_equal(Self::eq_item(), a.items(), b.take(a.items().len() as int))) implies <str as SequenceSegment>::cuts(b, a.items().len()) by {
            let (e, x, y) = (Self::eq_item(), a.items(), b.take(a.items().len() as int));
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(e(x[i], y[i]) || e(y[i], x[i])); }
            assert(x =~= y);
            broadcast use vstd::utf8::group_utf8_lib;
            self_sync(a.items(), b);
        }
    }
//@end
}
}
fn main() {}
