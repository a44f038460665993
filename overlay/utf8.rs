// C18: the UTF-8 validator.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
//@futures
//@index
//@for
//@local str task pin
//@erase IntoFuture = Self
//@file uv crates/parcom-sequence-sources/src/utf8_validator.rs
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
//@include source.inc
//@include fut.inc
/// What is UTF-8 (RFC 3629).
pub mod rfc3629 { use super::*;
pub open spec fn width(b: u8) -> int {
    if b <= 0x7f { 1 } else if 0xc2 <= b <= 0xdf { 2 } else if 0xe0 <= b <= 0xef { 3 } else if 0xf0 <= b <= 0xf4 { 4 } else { 0 }
}
/// byte `i` of a character that begins with `b0` may be `x`
pub open spec fn tail_byte(b0: u8, i: int, x: u8) -> bool {
    if i == 1 && b0 == 0xe0 { 0xa0 <= x <= 0xbf }
    else if i == 1 && b0 == 0xed { 0x80 <= x <= 0x9f }
    else if i == 1 && b0 == 0xf0 { 0x90 <= x <= 0xbf }
    else if i == 1 && b0 == 0xf4 { 0x80 <= x <= 0x8f }
    else { 0x80 <= x <= 0xbf }
}
/// `b` begins with a character
pub open spec fn starts(b: Seq<u8>) -> bool {
    b.len() > 0 && 0 < width(b[0]) <= b.len() && forall|i: int| #![trigger b[i]] 1 <= i < width(b[0]) ==> tail_byte(b[0], i, b[i])
}
/// `b` is a text
pub open spec fn valid(b: Seq<u8>) -> bool decreases b.len() {
    b.len() == 0 || (starts(b) && valid(b.skip(width(b[0]))))
}
/// bytes may follow that make it a text
#[verifier::opaque]
pub open spec fn completable(b: Seq<u8>) -> bool { exists|e: Seq<u8>| #[trigger] valid(b + e) }
/// its longest part that is a text has `k` bytes
#[verifier::opaque]
pub open spec fn whole(b: Seq<u8>, k: int) -> bool {
    0 <= k <= b.len() && valid(b.take(k)) && forall|j: int| k < j <= b.len() ==> !#[trigger] valid(b.take(j))
}
pub broadcast proof fn text_is_whole(b: Seq<u8>)
    requires #[trigger] valid(b), ensures completable(b), whole(b, b.len() as int)
{ reveal(completable); reveal(whole); assert(b + Seq::<u8>::empty() =~= b); assert(valid(b + Seq::<u8>::empty())); assert(b.take(b.len() as int) =~= b); }
pub broadcast proof fn whole_within(b: Seq<u8>, k: int) requires #[trigger] whole(b, k), ensures 0 <= k <= b.len() { reveal(whole); }
pub proof fn joined(a: Seq<u8>, b: Seq<u8>)
    requires valid(a), ensures valid(a + b) == valid(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        let n = width(a[0]);
        let ab = a + b;
        assert(ab[0] == a[0]);
        assert forall|i: int| 1 <= i < n implies tail_byte(ab[0], i, #[trigger] ab[i]) by { assert(ab[i] == a[i]); }
        assert(ab.skip(n) =~= a.skip(n) + b);
        joined(a.skip(n), b);
    }
}
/// what follows a text decides whether it can become one
pub proof fn joined_completable(a: Seq<u8>, b: Seq<u8>)
    requires valid(a), ensures completable(a + b) == completable(b)
{
    reveal(completable);
    if completable(b) { let e = choose|e: Seq<u8>| #[trigger] valid(b + e); joined(a, b + e); assert((a + b) + e =~= a + (b + e)); assert(valid((a + b) + e)); }
    if completable(a + b) { let e = choose|e: Seq<u8>| #[trigger] valid((a + b) + e); assert((a + b) + e =~= a + (b + e)); joined(a, b + e); assert(valid(b + e)); }
}
/// at most three bytes of a character are missing the rest of it
pub broadcast proof fn incomplete(b: Seq<u8>, k: int)
    requires #[trigger] whole(b, k), #[trigger] completable(b), ensures b.len() - k <= 3
{
    reveal(whole); reveal(completable);
    let a = b.take(k); let c = b.skip(k);
    assert(b =~= a + c);
    joined_completable(a, c);
    let e = choose|e: Seq<u8>| #[trigger] valid(c + e);
    if c.len() > 3 {
        let w = width((c + e)[0]);
        assert(starts(c + e)); assert(w <= 4);
        let t = c.take(w);
        assert forall|i: int| 1 <= i < w implies tail_byte(t[0], i, #[trigger] t[i]) by { assert(t[i] == (c + e)[i]); }
        assert(t[0] == (c + e)[0]);
        assert(starts(t)); assert(t.skip(w).len() == 0); assert(valid(t.skip(w))); assert(valid(t));
        joined(a, t);
        assert(a + t =~= b.take(k + w));
        assert(valid(b.take(k + w)));
    }
}
}
pub use rfc3629::*;
/// Of std, TRUSTED: checking bytes for being a text.
pub mod str { use super::*;
pub struct Utf8Error { pub upto: usize, pub len: Option<usize> }
impl Utf8Error {
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.upto { self.upto }
    pub fn error_len(&self) -> (r: Option<usize>) ensures r == self.len { self.len }
}
#[verifier::external_body]
pub struct Text(());
impl Text {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn from_utf8(v: &[u8]) -> (r: Result<Text, Utf8Error>)
    ensures match r {
        Ok(t) => valid(v@) && t.bytes() == v@,
        Err(e) => !valid(v@) && whole(v@, e.upto as int) && (e.len is None <==> completable(v@))
            && (e.len matches Some(n) ==> 1 <= n <= 3 && e.upto + n <= v@.len()),
    } { unimplemented!() }
}
/// Pinning does nothing; polling contexts are passed along.
pub mod task { pub use super::{Context, Poll}; }
pub mod pin { pub use super::Pin; }
pub struct Pin(());
impl Pin {
    pub fn new_unchecked<'a, T>(x: &'a mut T) -> (r: &'a mut T) ensures *r == *old(x), *final(r) == *final(x) { x }
    pub fn new<'a, T>(x: &'a mut T) -> (r: &'a mut T) ensures *r == *old(x), *final(r) == *final(x) { x }
}
pub trait Pinned: Sized {
    fn get_unchecked_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
    fn get_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
}
impl<T> Pinned for T {
    fn get_unchecked_mut(&mut self) -> (r: &mut Self) { self }
    fn get_mut(&mut self) -> (r: &mut Self) { self }
}
/// Parts of slices and arrays.
pub mod parts { use super::*;
pub trait Part<T> {
    spec fn whole(&self) -> Seq<T>;
    fn vx_index(&self, r: core::ops::RangeFrom<usize>) -> (s: &[T])
        requires r.start <= self.whole().len(),
        ensures s@ == self.whole().skip(r.start as int);
}
impl<T> Part<T> for [T] {
    open spec fn whole(&self) -> Seq<T> { self@ }
    fn vx_index(&self, r: core::ops::RangeFrom<usize>) -> (s: &[T]) {
        let s = vstd::slice::slice_subrange(self, r.start, self.len());
        assert(s@ =~= self@.skip(r.start as int));
        s
    }
}
pub trait CopyAt<T> {
    spec fn now(&self) -> Seq<T>;
    fn vx_copy_at(&mut self, r: core::ops::RangeTo<usize>, s: &[T])
        requires r.end <= old(self).now().len(), r.end == s@.len(),
        ensures final(self).now() == s@ + old(self).now().skip(r.end as int);
}
impl<T: Copy, const N: usize> CopyAt<T> for [T; N] {
    open spec fn now(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_copy_at(&mut self, r: core::ops::RangeTo<usize>, s: &[T]) { self[r].copy_from_slice(s) }
}
}
pub use parts::*;
pub mod validator { use super::*;
//@take uv struct Utf8Validator
//@take uv enum Utf8ValidationError
//@take uv struct Next
//@take uv struct Control
//@take uv struct Writer
//@take uv struct Response
//@take uv enum InnerResponse
}
pub use validator::*;
pub mod passing { use super::*;
pub use Utf8ValidationError::*;
/// bytes held back
pub open spec fn held_of(rest: [u8; 3], buffered: usize) -> Seq<u8> { rest@.take(buffered as int) }
/// what the validator does with the receiver, holding back `held`, when the source does `a`; it then holds back `held2`
pub open spec fn passes<E>(held: Seq<u8>, a: Act<u8, E>, out: Act<u8, Utf8ValidationError<E>>, held2: Seq<u8>) -> bool {
    match a {
        Act::Refuse(e) => out == Act::<u8, Utf8ValidationError<E>>::Refuse(Inner(e)) && held2 == held,
        Act::Finish => if held.len() == 0 { out is Finish && held2 == held } else { out == Act::<u8, Utf8ValidationError<E>>::Refuse(InvalidSequence) },
        Act::Write(n, items) => if completable(held + items) {
            exists|k: int| #[trigger] whole(held + items, k) && out == Act::<u8, Utf8ValidationError<E>>::Write(held.len() + n, (held + items).take(k)) && held2 == (held + items).skip(k)
        } else {
            out == Act::<u8, Utf8ValidationError<E>>::Fail(held.len() + n, held + items, InvalidSequence)
        },
        Act::Fail(n, items, e) => out == Act::<u8, Utf8ValidationError<E>>::Fail(held.len() + n, held + items, Inner(e)) && held2 == held,
    }
}
/// The history: of the bytes `bytes` of the source so far, `passed` were passed on and `held` are held back.
pub open spec fn kept(bytes: Seq<u8>, passed: Seq<u8>, held: Seq<u8>) -> bool {
    bytes == passed + held && valid(passed) && completable(held) && whole(held, 0)
}
pub proof fn history_begins() ensures kept(Seq::empty(), Seq::empty(), Seq::empty()) {
    reveal(completable); reveal(whole);
    let e = Seq::<u8>::empty();
    assert(e + e =~= e);
    assert(valid(e + e));
    assert(e.take(0) =~= e);
}
/// Each step keeps the history, or reports that the bytes so far cannot become a text or that they are none at the end.
pub proof fn history<E>(bytes: Seq<u8>, passed: Seq<u8>, held: Seq<u8>, a: Act<u8, E>, out: Act<u8, Utf8ValidationError<E>>, held2: Seq<u8>)
    requires kept(bytes, passed, held), passes(held, a, out, held2),
    ensures match a {
        Act::Write(n, items) => match out {
            Act::Write(m, more) => completable(bytes + items) && kept(bytes + items, passed + more, held2) && m >= more.len() - items.len() + n,
            Act::Fail(m, _, e) => e is InvalidSequence && !completable(bytes + items),
            _ => false,
        },
        Act::Fail(n, items, e) => out matches Act::Fail(_, _, Inner(e2)) && e2 == e && kept(bytes, passed, held2),
        Act::Refuse(e) => out == Act::<u8, Utf8ValidationError<E>>::Refuse(Inner(e)) && kept(bytes, passed, held2),
        Act::Finish => if valid(bytes) { out is Finish && passed == bytes && held2 == held } else { out == Act::<u8, Utf8ValidationError<E>>::Refuse(InvalidSequence) },
    }
{
    reveal(completable); reveal(whole);
    match a {
        Act::Write(n, items) => {
            let t = held + items;
            assert(bytes + items =~= passed + t);
            joined_completable(passed, t);
            if completable(t) {
                let k = choose|k: int| #[trigger] whole(t, k) && out == Act::<u8, Utf8ValidationError<E>>::Write(held.len() + n, t.take(k)) && held2 == t.skip(k);
                let more = t.take(k);
                joined(passed, more);
                assert(t =~= more + held2);
                joined_completable(more, held2);
                assert(bytes + items =~= (passed + more) + held2);
                assert(held2.take(0) =~= Seq::<u8>::empty());
                assert forall|j: int| 0 < j <= held2.len() implies !#[trigger] valid(held2.take(j)) by {
                    joined(more, held2.take(j));
                    assert(t.take(k + j) =~= more + held2.take(j));
                    assert(!valid(t.take(k + j)));
                }
            }
        }
        Act::Finish => {
            joined(passed, held);
            if held.len() == 0 { assert(bytes =~= passed); } else { assert(held.take(held.len() as int) =~= held); }
        }
        _ => {}
    }
}
/// an error of a step that the validator reports loses no held-back bytes
pub proof fn errors_keep<E>(held: Seq<u8>, a: Act<u8, E>, out: Act<u8, Utf8ValidationError<E>>, held2: Seq<u8>)
    requires passes(held, a, out, held2), (out matches Act::Refuse(Inner(e))) || (out matches Act::Fail(_, _, Inner(e))),
    ensures held2 == held {}
}
pub use passing::*;
pub mod steps { use super::*;
/// the writer `w` of the validator's control is a writer `r0` of the receiver to which the held-back bytes were written
#[verifier::prophetic]
pub open spec fn primed<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(c: Control<S, C>, n: int, m0: &Mem<u8>, w: Writer<S, C>, m1: &Mem<u8>) -> bool {
    exists|r0: C::Writer, ma: &Mem<u8>| {
        &&& #[trigger] c.control.opened(c.buffered + n, m0, r0, ma) && r0.buf().cap >= c.buffered + n
        &&& #[trigger] wrote(r0, ma, held_of(c.rest, c.buffered), w.req, m1) && w.buffered == c.buffered
    }
}
/// completing the write of `w` passes on what is whole
#[verifier::prophetic]
pub open spec fn passed_on<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(w: Writer<S, C>, m0: &Mem<u8>, m1: &Mem<u8>, res: Response<S, C>) -> bool {
    let t = w.req.buf().items(m0);
    if completable(t) {
        exists|k: int, w2: C::Writer, m2: &Mem<u8>| {
            &&& #[trigger] whole(t, k) && #[trigger] wrote(w.req, m0, t.take(k), w2, m2)
            &&& res.inner matches InnerResponse::Advance { buffered, rest, res } && buffered <= 3 && held_of(rest, buffered) == t.skip(k) && w2.advanced(m2, m1, res)
        }
    } else {
        res.inner matches InnerResponse::Err { res } && w.req.cancelled(m0, Utf8ValidationError::InvalidSequence, m1, res)
    }
}
pub broadcast proof fn primes<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(c: Control<S, C>, n: int, nn: int, m0: &Mem<u8>, r0: C::Writer, ma: &Mem<u8>, w: Writer<S, C>, m1: &Mem<u8>)
    requires #[trigger] c.control.opened(nn, m0, r0, ma), nn == c.buffered + n, r0.buf().cap >= nn, w.buffered == c.buffered <= 3,
        w.req.sound(), w.req.kin(&r0), w.req.buf().same(r0.buf()), w.req.buf().wf(m1), w.req.outside(m1), only_within(ma, m1, r0.buf()),
        w.req.buf().written == c.buffered,
        forall|i: int| 0 <= i < c.buffered ==> #[trigger] (m1@[r0.buf().start.block()].cells)(r0.buf().start.at() + i) == Some(c.rest[i]),
    ensures #[trigger] primed(c, n, m0, w, m1)
{
    let b = w.req.buf();
    assert forall|i: int| 0 <= i < c.buffered implies #[trigger] b.items(m1)[i] == c.rest[i] by { assert((m1@[b.start.block()].cells)(b.start.at() + i) == Some(c.rest[i])); }
    assert(b.items(m1) =~= held_of(c.rest, c.buffered));
    assert(wrote(r0, ma, held_of(c.rest, c.buffered), w.req, m1));
}
pub broadcast proof fn passes_whole<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(w: Writer<S, C>, m0: &Mem<u8>, k: int, w2: C::Writer, m2: &Mem<u8>, m1: &Mem<u8>, r: C::Result, res: Response<S, C>)
    requires #[trigger] w2.advanced(m2, m1, r), completable(w.req.buf().items(m0)), #[trigger] whole(w.req.buf().items(m0), k),
        w2.sound(), w2.kin(&w.req), w2.buf().same(w.req.buf()), w2.buf().wf(m2), w2.outside(m2), only_within(m0, m2, w.req.buf()), w2.buf().items(m2) =~= w.req.buf().items(m0).take(k),
        res.inner matches InnerResponse::Advance { buffered, rest, res } && res == r && buffered <= 3 && buffered == w.req.buf().items(m0).len() - k
            && forall|i: int| 0 <= i < buffered ==> #[trigger] rest[i] == w.req.buf().items(m0)[k + i],
    ensures #[trigger] passed_on(w, m0, m1, res)
{
    reveal(whole);
    let t = w.req.buf().items(m0);
    match res.inner { InnerResponse::Advance { buffered, rest, res } => { assert(held_of(rest, buffered) =~= t.skip(k)); } _ => {} }
    assert(wrote(w.req, m0, t.take(k), w2, m2));
}
/// the answer of the receiver inside
pub open spec fn answer<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(r: Response<S, C>) -> C::Result {
    match r.inner { InnerResponse::Advance { buffered, rest, res } => res, InnerResponse::Finish { res } => res, InnerResponse::Err { res } => res }
}
/// bytes held back after the step
pub open spec fn held_after<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(held: Seq<u8>, r: Response<S, C>) -> Seq<u8> {
    match r.inner { InnerResponse::Advance { buffered, rest, res } => held_of(rest, buffered), _ => held }
}
}
pub use steps::*;
pub mod controlled { use super::*;
broadcast use {memory::ptr_plus, primes, passes_whole, rfc3629::text_is_whole, rfc3629::whole_within, rfc3629::incomplete};
//@memtype Mem<u8>
//@impl uv BufferWriter Writer
//@inject
    open spec fn buf(&self) -> Buf<u8> {
        Buf { start: self.req.buf().start.plus(self.buffered as int), cap: self.req.buf().cap - self.buffered, written: self.req.buf().written - self.buffered }
    }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.req.kin(&o.req) && self.req.buf().same(o.req.buf()) && self.buffered == o.buffered }
    open spec fn sound(&self) -> bool { self.req.sound() && self.buffered <= 3 && self.buffered <= self.req.buf().written <= self.req.buf().cap <= usize::MAX }
    open spec fn outside(&self, m: &Mem<u8>) -> bool {
        self.req.outside(m) && m.has(self.req.buf().start, self.req.buf().cap) && m.all_full(self.req.buf().start, self.buffered as int)
    }
    #[verifier::prophetic]
    open spec fn advanced(&self, m0: &Mem<u8>, m1: &Mem<u8>, res: Response<S, C>) -> bool { passed_on(*self, m0, m1, res) }
    #[verifier::prophetic]
    open spec fn cancelled(&self, m0: &Mem<u8>, err: S::Error, m1: &Mem<u8>, res: Response<S, C>) -> bool {
        res.inner matches InnerResponse::Err { res } && self.req.cancelled(m0, Utf8ValidationError::Inner(err), m1, res)
    }
    proof fn laws() { C::Writer::laws(); }
//@fn advance
//@head
    proof { C::Writer::laws(); }
//@end
//@memtype Mem<u8>
//@impl uv SequenceControl Control
//@inject
    open spec fn ready(&self, m: &Mem<u8>) -> bool { self.control.ready(m) && self.buffered <= 3 }
    open spec fn grants(&self, n: int) -> bool { self.buffered + n <= usize::MAX && self.control.grants(self.buffered + n) }
    #[verifier::prophetic]
    open spec fn opened(&self, n: int, m0: &Mem<u8>, w: Writer<S, C>, m1: &Mem<u8>) -> bool { primed(*self, n, m0, w, m1) }
    #[verifier::prophetic]
    open spec fn refused(&self, m0: &Mem<u8>, err: S::Error, m1: &Mem<u8>, res: Response<S, C>) -> bool {
        res.inner matches InnerResponse::Err { res } && self.control.refused(m0, Utf8ValidationError::Inner(err), m1, res)
    }
    #[verifier::prophetic]
    open spec fn finished(&self, m0: &Mem<u8>, m1: &Mem<u8>, res: Response<S, C>) -> bool {
        if self.buffered == 0 { res.inner matches InnerResponse::Finish { res } && self.control.finished(m0, m1, res) }
        else { res.inner matches InnerResponse::Err { res } && self.control.refused(m0, Utf8ValidationError::InvalidSequence, m1, res) }
    }
//@fn request_writer
//@head
    proof { C::Writer::laws(); }
//@end
}
pub mod answered { use super::*;
/// The source did `a` of the validator's control, which answered `resp`: the receiver `c` was told what is to be passed on.
#[verifier::prophetic]
pub open spec fn stepped<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(held: Seq<u8>, c: C, m0: &Mem<u8>, a: Act<u8, S::Error>, m1: &Mem<u8>, resp: Response<S, C>) -> bool {
    &&& exists|out: Act<u8, Utf8ValidationError<S::Error>>| passes(held, a, out, held_after(held, resp)) && #[trigger] did(c, m0, out, m1, answer(resp))
    &&& resp.inner matches InnerResponse::Advance { buffered, rest, res } ==> buffered <= 3
}
/// some step of the source leads to it
#[verifier::prophetic]
pub open spec fn comes_of<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(s0: S, s1: S, held: Seq<u8>, c: C, m0: &Mem<u8>, m1: &Mem<u8>, resp: Response<S, C>) -> bool {
    exists|a: Act<u8, S::Error>| s0.gives(a, s1) && #[trigger] stepped(held, c, m0, a, m1, resp)
}
pub broadcast proof fn control_did<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(c: Control<S, C>, m0: &Mem<u8>, a: Act<u8, S::Error>, m1: &Mem<u8>, resp: Response<S, C>)
    requires #[trigger] did(c, m0, a, m1, resp), c.buffered <= 3,
    ensures stepped(held_of(c.rest, c.buffered), c.control, m0, a, m1, resp)
{
    C::Writer::laws();
    let held = held_of(c.rest, c.buffered);
    let held2 = held_after(held, resp);
    match a {
        Act::Refuse(e) => {
            let out = Act::<u8, Utf8ValidationError<S::Error>>::Refuse(Inner(e));
            assert(passes(held, a, out, held2) && did(c.control, m0, out, m1, answer(resp)));
        }
        Act::Finish => {
            let out = if held.len() == 0 { Act::<u8, Utf8ValidationError<S::Error>>::Finish } else { Act::<u8, Utf8ValidationError<S::Error>>::Refuse(InvalidSequence) };
            assert(passes(held, a, out, held2) && did(c.control, m0, out, m1, answer(resp)));
        }
        Act::Write(n, items) => {
            let (w0, ma, w, mb) = choose|w0: Writer<S, C>, ma: &Mem<u8>, w: Writer<S, C>, mb: &Mem<u8>|
                #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n && #[trigger] wrote(w0, ma, items, w, mb) && w.advanced(mb, m1, resp);
            written_through(c, n, m0, w0, ma, items, w, mb);
            let (r0, mz) = choose|r0: C::Writer, mz: &Mem<u8>| #[trigger] c.control.opened(c.buffered + n, m0, r0, mz) && r0.buf().cap >= c.buffered + n && #[trigger] wrote(r0, mz, held_of(c.rest, c.buffered) + items, w.req, mb);
            let nn = held.len() + n;
            assert(nn == c.buffered + n);
            assert(c.control.opened(nn, m0, r0, mz));
            assert(wrote(r0, mz, held + items, w.req, mb));
            let t = held + items;
            if completable(t) {
                let (k, w2, m2) = choose|k: int, w2: C::Writer, m2: &Mem<u8>| {
                    &&& #[trigger] whole(t, k) && #[trigger] wrote(w.req, mb, t.take(k), w2, m2)
                    &&& resp.inner matches InnerResponse::Advance { buffered, rest, res } && buffered <= 3 && held_of(rest, buffered) == t.skip(k) && w2.advanced(m2, m1, res)
                };
                within_trans(mz, mb, m2, r0.buf());
                assert(wrote(r0, mz, t.take(k), w2, m2));
                let out = Act::<u8, Utf8ValidationError<S::Error>>::Write(nn, t.take(k));
                assert(passes(held, a, out, held2));
                assert(did(c.control, m0, out, m1, answer(resp)));
            } else {
                let out = Act::<u8, Utf8ValidationError<S::Error>>::Fail(nn, t, InvalidSequence);
                assert(passes(held, a, out, held2));
                assert(did(c.control, m0, out, m1, answer(resp)));
            }
        }
        Act::Fail(n, items, e) => {
            let (w0, ma, w, mb) = choose|w0: Writer<S, C>, ma: &Mem<u8>, w: Writer<S, C>, mb: &Mem<u8>|
                #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n && #[trigger] wrote(w0, ma, items, w, mb) && w.cancelled(mb, e, m1, resp);
            written_through(c, n, m0, w0, ma, items, w, mb);
            let (r0, mz) = choose|r0: C::Writer, mz: &Mem<u8>| #[trigger] c.control.opened(c.buffered + n, m0, r0, mz) && r0.buf().cap >= c.buffered + n && #[trigger] wrote(r0, mz, held_of(c.rest, c.buffered) + items, w.req, mb);
            let nn = held.len() + n;
            assert(nn == c.buffered + n);
            assert(c.control.opened(nn, m0, r0, mz));
            assert(wrote(r0, mz, held + items, w.req, mb));
            let out = Act::<u8, Utf8ValidationError<S::Error>>::Fail(nn, held + items, Inner(e));
            assert(passes(held, a, out, held2));
            assert(did(c.control, m0, out, m1, answer(resp)));
        }
    }
}
#[verifier::prophetic]
pub open spec fn through<C: SequenceControl<Item = u8>>(c: C, n: int, m0: &Mem<u8>, items: Seq<u8>, w: C::Writer, m1: &Mem<u8>) -> bool {
    exists|r0: C::Writer, mz: &Mem<u8>| #[trigger] c.opened(n, m0, r0, mz) && r0.buf().cap >= n && #[trigger] wrote(r0, mz, items, w, m1)
}
/// what was written to the validator's writer was written to the receiver's, after the held-back bytes
pub proof fn written_through<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(c: Control<S, C>, n: int, m0: &Mem<u8>, w0: Writer<S, C>, ma: &Mem<u8>, items: Seq<u8>, w: Writer<S, C>, mb: &Mem<u8>)
    requires c.opened(n, m0, w0, ma), wrote(w0, ma, items, w, mb), c.buffered <= 3,
    ensures through(c.control, c.buffered + n, m0, held_of(c.rest, c.buffered) + items, w.req, mb), w.buffered == c.buffered,
        w.req.buf().items(mb) == held_of(c.rest, c.buffered) + items,
{
    C::Writer::laws();
    let held = held_of(c.rest, c.buffered);
    let (r0, mz) = choose|r0: C::Writer, mz: &Mem<u8>| {
        &&& #[trigger] c.control.opened(c.buffered + n, m0, r0, mz) && r0.buf().cap >= c.buffered + n
        &&& #[trigger] wrote(r0, mz, held, w0.req, ma) && w0.buffered == c.buffered
    };
    broadcast use memory::ptr_plus;
    let b = w.req.buf();
    assert(only_within(ma, mb, w0.req.buf()));
    within_trans(mz, ma, mb, r0.buf());
    let s = b.items(mb);
    assert(s.len() == held.len() + items.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == (held + items)[i] by {
        if i < held.len() {
            assert(w0.req.buf().items(ma)[i] == held[i]);
            assert((mb@[b.start.block()].cells)(b.start.at() + i) == (ma@[b.start.block()].cells)(b.start.at() + i));
        } else {
            assert(w.buf().items(mb)[i - held.len()] == items[i - held.len()]);
        }
    }
    assert(s =~= held + items);
    assert(wrote(r0, mz, held + items, w.req, mb));
}
}
pub use answered::{stepped, comes_of};

pub mod stepping { use super::*;
broadcast use answered::control_did;
//@memtype Mem<u8>
//@impl uv - Utf8Validator only=new
//@fn new
    ensures res.buffered == 0, res.source == $0, held_of(res.rest, res.buffered) == Seq::<u8>::empty(),
//@end
//@impl uv SequenceSource Utf8Validator inherent
//@inject
//@fn next
    requires old(self).buffered <= 3, old(self).source.fit(), control.ready(old(vx_mem)),
        forall|n: int| #[trigger] S::asks(n) ==> 0 <= n && old(self).buffered + n <= usize::MAX && control.grants(old(self).buffered + n),
    ensures
        *res.buffered == old(self).buffered, *res.rest == old(self).rest,
        final(self).buffered == *final(res.buffered), final(self).rest == *final(res.rest),
        final(self).source.fit(),
        comes_of(old(self).source, final(self).source, held_of(old(self).rest, old(self).buffered), control, old(vx_mem), final(vx_mem), res.fut.out()),
//@end
//@impl uv Future Next inherent
//@inject
//@fn poll
    requires old(self).fut.out().inner matches InnerResponse::Advance { buffered, rest, res } ==> buffered <= 3, *old(self).buffered <= 3,
    ensures final(self).fut.out() == old(self).fut.out(),
        *final(final(self).buffered) == *final(old(self).buffered), *final(final(self).rest) == *final(old(self).rest),
        match res {
            Poll::Ready(r) => r == answer(old(self).fut.out()) && match old(self).fut.out().inner {
                InnerResponse::Advance { buffered, rest, res } => *final(self).buffered == buffered && *final(self).rest == rest,
                _ => *final(self).buffered == *old(self).buffered && *final(self).rest == *old(self).rest,
            },
            Poll::Pending => *final(self).buffered == *old(self).buffered && *final(self).rest == *old(self).rest,
        },
//@end
}
pub use stepping::*;
pub mod whole_step { use super::*;
impl<S: SequenceSource<Item = u8>> Utf8Validator<S> {
    pub open spec fn held(&self) -> Seq<u8> { held_of(self.rest, self.buffered) }
    /// the validator is in order
    pub open spec fn fit(&self) -> bool { self.buffered <= 3 && self.source.fit() }
    /// the step of the source that the validator makes of a step of its source
    pub open spec fn gives(&self, out: Act<u8, Utf8ValidationError<S::Error>>, after: &Self) -> bool {
        exists|a: Act<u8, S::Error>| self.source.gives(a, after.source) && #[trigger] passes(self.held(), a, out, after.held())
    }
}
#[verifier::prophetic]
pub open spec fn gave<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(v0: &Utf8Validator<S>, v1: &Utf8Validator<S>, c: C, m0: &Mem<u8>, m1: &Mem<u8>, res: C::Result) -> bool {
    exists|out: Act<u8, Utf8ValidationError<S::Error>>| v0.gives(out, v1) && #[trigger] did(c, m0, out, m1, res)
}
proof fn gives_it<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(v0: &Utf8Validator<S>, v1: &Utf8Validator<S>, c: C, m0: &Mem<u8>, m1: &Mem<u8>, resp: Response<S, C>)
    requires comes_of(v0.source, v1.source, v0.held(), c, m0, m1, resp), v1.held() == held_after(v0.held(), resp),
    ensures gave(v0, v1, c, m0, m1, answer(resp))
{
    let a = choose|a: Act<u8, S::Error>| v0.source.gives(a, v1.source) && #[trigger] stepped(v0.held(), c, m0, a, m1, resp);
    let out = choose|out: Act<u8, Utf8ValidationError<S::Error>>| passes(v0.held(), a, out, held_after(v0.held(), resp)) && #[trigger] did(c, m0, out, m1, answer(resp));
    assert(passes(v0.held(), a, out, v1.held()));
    assert(v0.gives(out, v1));
}
/// The theorem of C18: whoever asks for a step and polls it to its end has the receiver told what `gives` says.
/// (The contract of SequenceSource::next; `as_source` makes it that trait's. The validator's own `next` only starts the step.)
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
pub fn step<S: SequenceSource<Item = u8>, C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>>(v: &mut Utf8Validator<S>, control: C, size_hint: usize, cx: &mut Context<'_>, Tracked(vx_mem): Tracked<&mut Mem<u8>>) -> (res: C::Result)
    requires old(v).fit(), control.ready(old(vx_mem)),
        forall|n: int| #[trigger] S::asks(n) ==> 0 <= n && old(v).buffered + n <= usize::MAX && control.grants(old(v).buffered + n),
    ensures final(v).fit(), gave(&*old(v), &*final(v), control, old(vx_mem), final(vx_mem), res),
{
    let ghost v0 = *v;
    let ghost m0 = *vx_mem;
    let mut fut = v.next(control, size_hint, Tracked(vx_mem));
    let ghost resp = fut.fut.out();
    let ghost (b, r) = (*final(fut.buffered), *final(fut.rest));
    loop
        invariant *final(fut.buffered) == b, *final(fut.rest) == r, fut.fut.out() == resp, *fut.buffered == v0.buffered, *fut.rest == v0.rest,
    {
        match fut.poll(cx) {
            Poll::Ready(r) => {
                proof { gives_it(&v0, v, control, &m0, vx_mem, resp); }
                return r;
            }
            Poll::Pending => {}
        }
    }
}
}
pub mod as_source { use super::*; use super::whole_step::{gave, step};
/// what polls a step to its end
#[verifier::external_body]
fn someone<'a>() -> (cx: &'a mut Context<'a>) { unimplemented!() }
/// a step that has come to its end
#[verifier::external_body]
fn settled<R>(r: R) -> (f: Fut<R>) ensures f.out() == r { unimplemented!() }
/// A validator, each of whose steps is polled to its end, honours the contract every `SequenceSource` is held to:
/// it can stand wherever a source can, under another validator or under the runner.
#[verifier::reject_recursive_types(S)]
pub struct Whole<S: SequenceSource<Item = u8>>(pub Utf8Validator<S>);
impl<S: SequenceSource<Item = u8>> SequenceSource for Whole<S> {
    type Item = u8;
    type Error = Utf8ValidationError<S::Error>;
    open spec fn fit(self) -> bool { self.0.fit() }
    open spec fn asks(n: int) -> bool { exists|m: int| #[trigger] S::asks(m) && m <= n <= m + 3 }
    open spec fn gives(self, a: Act<u8, Utf8ValidationError<S::Error>>, after: Self) -> bool { self.0.gives(a, &after.0) }
    fn next<'a, C>(&'a mut self, control: C, size_hint: usize, Tracked(vx_mem): Tracked<&mut Mem<u8>>) -> (res: Fut<C::Result>)
        where C: 'a + SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>
    {
        let ghost b = self.0.buffered as int;
        proof {
            assert forall|m: int| #[trigger] S::asks(m) implies 0 <= m && b + m <= usize::MAX && control.grants(b + m) by {
                assert(Self::asks(m));
                assert(Self::asks(b + m));
            }
        }
        settled(step(&mut self.0, control, size_hint, someone(), Tracked(vx_mem)))
    }
}
}

}
fn main() {}
