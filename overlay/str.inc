//@file prim crates/parcom-core/src/primitive.rs
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
/// the items `s` are equal to the items `p`, item by item under `e`
pub open spec fn all_equal<A>(e: spec_fn(A, A) -> bool, s: Seq<A>, p: Seq<A>) -> bool {
    s.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] e(s[i], p[i])
}
/// `==` of `T` is symmetric
pub open spec fn symmetric<T: PartialEq>() -> bool { forall|a: T, b: T| #[trigger] PartialEqSpec::eq_spec(&a, &b) == PartialEqSpec::eq_spec(&b, &a) }
pub mod strs { use super::*;
// TRUSTED: no str is longer than usize::MAX bytes
pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= usize::MAX;
// TRUSTED: the documented behaviour of str::split_at_checked
pub assume_specification[str::split_at_checked](s: &str, mid: usize) -> (res: Option<(&str, &str)>)
    ensures match res {
        Some((a, b)) => mid <= s.spec_bytes().len() && is_char_boundary(s.spec_bytes(), mid as int) && a.spec_bytes() == s.spec_bytes().take(mid as int) && b.spec_bytes() == s.spec_bytes().skip(mid as int),
        None => !is_char_boundary(s.spec_bytes(), mid as int),
    };
/// where a valid text ends, any valid text that starts with it has a character boundary
pub proof fn self_sync(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b), a.len() <= b.len(), a == b.take(a.len() as int),
    ensures is_char_boundary(b, a.len() as int)
    decreases a.len()
{
    if a.len() == 0 { is_char_boundary_start_end_of_seq(b); }
    else {
        let a1 = pop_first_scalar(a);
        let b1 = pop_first_scalar(b);
        assert(a1 =~= b1.take(a1.len() as int));
        self_sync(a1, b1);
    }
}
/// strings are equal when their bytes are
pub proof fn str_eq(a: &str, b: &str)
    ensures <str as PartialEqSpec>::eq_spec(a, b) == (a.spec_bytes() == b.spec_bytes())
{
    broadcast use vstd::utf8::group_utf8_lib;
    if a.spec_bytes() == b.spec_bytes() { assert(decode_utf8(a.spec_bytes()) == a@); }
}
/// slices are equal when their items are
pub proof fn slice_eq<T: PartialEq>(e: spec_fn(T, T) -> bool, a: &[T], b: &[T])
    requires <T as PartialEqSpec>::obeys_eq_spec(), e == (|a: T, b: T| <T as PartialEqSpec>::eq_spec(&a, &b)),
    ensures <[T] as PartialEqSpec>::eq_spec(a, b) == all_equal(e, a@, b@),
{
    if a@.len() == b@.len() {
        if all_equal(e, a@, b@) {
            assert forall|i: int| 0 <= i < b@.len() implies <T as PartialEqSpec>::eq_spec(#[trigger] &a@[i], &b@[i]) by { assert(e(a@[i], b@[i])); }
        }
        if <[T] as PartialEqSpec>::eq_spec(a, b) {
            assert forall|i: int| 0 <= i < b@.len() implies #[trigger] e(a@[i], b@[i]) by { assert(<T as PartialEqSpec>::eq_spec(&a@[i], &b@[i])); }
        }
    }
}
//@take prim struct BytesDelta
// what it derives is written out by the extraction
impl PartialEqSpecImpl for BytesDelta {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &BytesDelta) -> bool { self.0 == other.0 }
}
//@impl prim PartialEq BytesDelta
//@end
impl Eq for BytesDelta {}
impl PartialOrdSpecImpl for BytesDelta {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &BytesDelta) -> Option<core::cmp::Ordering> { PartialOrdSpec::partial_cmp_spec(&self.0, &other.0) }
}
//@impl prim PartialOrd BytesDelta
//@end
impl OrdSpecImpl for BytesDelta {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &BytesDelta) -> core::cmp::Ordering { OrdSpec::cmp_spec(&self.0, &other.0) }
}
//@impl prim Ord BytesDelta
//@end
//@impl prim Default BytesDelta
//@fn default
    ensures res.0 == 0,
//@end
//@impl prim Clone BytesDelta
//@fn clone
    ensures res == *self,
//@end
impl Copy for BytesDelta {}
}
pub use strs::*;
pub mod deltas { use super::*;
broadcast use strs::ax_str_len;
//@impl prim - BytesDelta only=from_bytes,to_bytes,from_char,from_str
//@fn from_bytes
    ensures res.0 == $0,
//@fn to_bytes
    ensures res == self.0,
//@fn from_char
    ensures res.0 == encode_scalar($0 as u32).len(),
//@fn from_str
    ensures res.0 == $0.spec_bytes().len(),
//@end
}
