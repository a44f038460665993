//@include core_head.inc
//@erase Segments = Nodes<$0, Self::Segment>
//@include seg.inc
//@method get vx_get
//@method split_at vx_split_at
//@method split_at_checked vx_split_at_checked
//@method as_bytes vx_as_bytes
//@index
//@slicetype
//@include str.inc
//@file pslice crates/parcom-core/src/primitive/slice.rs
//@file pstr crates/parcom-core/src/primitive/str.rs
//@include addr.inc
//@trait sequence RewindSequence
//@inject
    /// sequence `s` is the one anchor `a` was taken from
    spec fn at(a: Self::Anchor, s: Self) -> bool;
//@fn anchor
    ensures Self::at(res, *self),
//@fn rewind
    requires exists|s: Self| Self::at($0, s) && #[trigger] part(s, self),
    ensures Self::at($0, res),
//@end
pub use segments::*;
pub use parts::*;
pub mod parts { use super::*;
pub open spec fn text_moved(a: &str, n: nat, b: &str) -> bool { n <= a.spec_bytes().len() && b.spec_bytes() == a.spec_bytes().skip(n as int) && addr(b) == addr(a) + n }
pub open spec fn slice_moved<T>(a: &Slice<T>, n: nat, b: &Slice<T>) -> bool { n <= a@.len() && b@ == a@.skip(n as int) && addr(b) == addr(a) + n * vstd::layout::size_of::<T>() }
pub broadcast proof fn text_ends(s: &str)
    ensures #![trigger s.spec_bytes()] is_char_boundary(s.spec_bytes(), 0), is_char_boundary(s.spec_bytes(), s.spec_bytes().len() as int)
{ broadcast use vstd::utf8::group_utf8_lib; is_char_boundary_start_end_of_seq(s.spec_bytes()); }
pub broadcast proof fn text_part(s: &str, n: int, r: &str)
    requires s.part_ok(n, s.size()), #[trigger] s.part_is(n, s.size(), r), ensures text_moved(s, n as nat, r)
{}
pub broadcast proof fn slice_part<T>(s: &Slice<T>, n: int, r: &Slice<T>)
    requires s.part_ok(n, s.size()), #[trigger] s.part_is(n, s.size(), r), ensures slice_moved(s, n as nat, r)
{}
}
pub mod within { use super::*;
pub broadcast proof fn slice_within<T>(a: &Slice<T>, n: nat, b: &Slice<T>)
    requires #[trigger] slice_moved(a, n, b), ensures addr(a) <= addr(b) <= addr(a) + a@.len() * vstd::layout::size_of::<T>()
{
    let z = vstd::layout::size_of::<T>();
    assert(0 <= n * z <= a@.len() * z) by (nonlinear_arith) requires n <= a@.len();
}
}
pub mod segments { use super::*;
broadcast use {vstd::utf8::group_utf8_lib, parts::text_ends, parts::text_part, parts::slice_part, seg_lemmas::skip_none, addrs::pointers, within::slice_within, strs::ax_str_len};
//@impl pslice SequenceSegment [T]
//@inject
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    open spec fn num(l: usize) -> nat { l as nat }
    open spec fn valid(s: Seq<T>) -> bool { true }
    open spec fn cuts(s: Seq<T>, n: nat) -> bool { n <= s.len() }
    proof fn valid_items(&self) {}
    proof fn lengths() {}
//@end
//@impl pstr SequenceSegment str
//@inject
    type Item = u8;
    open spec fn items(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn num(l: BytesDelta) -> nat { l.0 as nat }
    open spec fn valid(s: Seq<u8>) -> bool { valid_utf8(s) }
    open spec fn cuts(s: Seq<u8>, n: nat) -> bool { is_char_boundary(s, n as int) }
    proof fn valid_items(&self) {}
    proof fn lengths() {
        assert forall|z: BytesDelta| #[trigger] call_ensures(<BytesDelta as Default>::default, (), z) implies z.0 == 0 by {}
    }
//@end
//@take prim struct Anchor
//@take prim struct Nodes
//@impl prim SegmentStream Nodes
//@inject
    open spec fn rest(&self) -> ItemsOf<T> { match self.me { Some(s) => s.items(), None => Seq::empty() } }
//@end
//@impl pstr Sequence &str
//@inject
    open spec fn items(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn num(l: BytesDelta) -> nat { l.0 as nat }
    open spec fn moved(a: Self, n: nat, b: Self) -> bool { text_moved(a, n, b) }
    open spec fn room(&self, n: nat) -> bool { is_char_boundary(self.spec_bytes(), n as int) || n > self.spec_bytes().len() }
    proof fn moved_none(a: Self) {}
    proof fn valid_items(&self) {}
    proof fn moved_add(a: Self, m: nat, b: Self, n: nat, c: Self) { broadcast use seg_lemmas::skip_skip; }
    proof fn moved_items(a: Self, n: nat, b: Self) {}
//@end
//@impl pslice Sequence &[T]
//@inject
    open spec fn items(&self) -> Seq<T> { self@ }
    open spec fn num(l: usize) -> nat { l as nat }
    open spec fn moved(a: Self, n: nat, b: Self) -> bool { slice_moved(a, n, b) }
    open spec fn room(&self, n: nat) -> bool { n <= self@.len() }
    proof fn moved_none(a: Self) {}
    proof fn valid_items(&self) {}
    proof fn moved_add(a: Self, m: nat, b: Self, n: nat, c: Self) {
        broadcast use seg_lemmas::skip_skip;
        let z = vstd::layout::size_of::<T>();
        assert((m + n) * z == m * z + n * z) by (nonlinear_arith);
    }
    proof fn moved_items(a: Self, n: nat, b: Self) {}
//@end
/// texts and slices may be advanced to every position they have, as the parsers' contracts ask
pub proof fn they_are_roomy<T>() ensures roomy::<&str>(), roomy::<&Slice<T>>() {}
//@impl pstr RewindSequence &str
//@inject
    open spec fn at(a: Anchor<Self>, s: Self) -> bool { a.me == s }
//@end
//@impl pslice RewindSequence &[T]
//@inject
    open spec fn at(a: Anchor<Self>, s: Self) -> bool { a.me == s }
//@end
}
