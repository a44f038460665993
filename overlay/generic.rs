// C16: the generic sequence.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
//@futures
//@index
//@local task pin future sync marker
//@mem truncate clear Self::poll set get load force_commit commit_to build Vec::new Vec::with_capacity mem::take GenericSequenceLoader::new Self::new
//@file g crates/parcom-sequences/src/generic.rs
//@file buf crates/parcom-sequences/src/generic/buffer.rs
//@file ctl crates/parcom-sequences/src/generic/control.rs
//@file load crates/parcom-sequences/src/generic/loader.rs
//@file strat crates/parcom-sequences/src/buffer_strategy.rs
//@file info crates/parcom-sequence-core/src/load_info.rs
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
//@include source.inc
//@include fut.inc
//@include vec.inc
pub mod task { pub use super::{Context, Poll}; }
pub mod sync { pub use std::sync::Arc; pub use super::OnceLock; }
pub mod mem { use super::*;
    pub use super::memory::mem::{replace, swap};
    /// an empty vector in the place of `d`
    pub fn take<T>(d: &mut Vec<T>, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Vec<T>)
        ensures r == *old(d), final(d).count() == 0, 0 <= final(d).cap() <= usize::MAX, vecs::added(old(m), final(m), *final(d)) { let v = Vec::new(Tracked(m)); replace(d, v) }
}
//@memtype
pub mod infos { use super::*;
//@take info struct LoadInfo
//@impl info - LoadInfo
//@fn new
    ensures res.commited == $0, res.uncommited == $1, res.buffer_capacity == $2, !res.is_done,
//@fn done
    ensures res.commited == $0, res.uncommited == 0, res.buffer_capacity == 0, res.is_done,
//@fn commited
    ensures res == self.commited,
//@fn uncommited
    ensures res == self.uncommited,
//@fn buffer_capacity
    ensures res == self.buffer_capacity,
//@fn is_done
    ensures res == self.is_done,
//@end
}
pub use infos::*;
pub mod strategies { use super::*;
//@trait strat BufferStrategy
//@fn calc_capacity
    ensures res >= $0,
//@end
//@impl strat BufferStrategy Arc
//@end
}
pub use strategies::*;
/// Cells that are set once, and the time. TRUSTED: who reads a cell after it was set sees what was set; `ever` is what
/// a cell is ever set to, `when` the time at which it is.
pub mod locks { use super::*;
#[verifier::external_body]
pub tracked struct Clock(());
impl Clock { pub uninterp spec fn now(&self) -> int; }
impl<T> Mem<T> { pub uninterp spec fn now(&self) -> int; }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct OnceLock<V>(PhantomData<V>);
impl<V> OnceLock<V> {
    pub uninterp spec fn ever(&self) -> Option<V>;
    pub uninterp spec fn when(&self) -> int;
    pub open spec fn seen(&self, t: int) -> bool { self.ever() is Some && self.when() <= t }
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, Tracked(c): Tracked<&mut Clock>) -> (r: Option<&V>)
        ensures old(c).now() <= final(c).now(),
            match r { Some(v) => self.ever() == Some(*v) && self.seen(final(c).now()), None => !self.seen(old(c).now()) } { unimplemented!() }
}
impl<T> OnceLock<Node<T>> {
    /// the node is given away: nobody can change its buffer any more
    #[verifier::external_body]
    pub fn set(&self, n: Node<T>, Tracked(m): Tracked<&mut Mem<T>>) -> (r: Result<(), Node<T>>)
        requires n.buf.wf(old(m)),
        ensures r is Ok ==> self.ever() == Some(n) && self.seen(final(m).now()) && n.buf.fixed() == n.buf.items(old(m)) && final(m)@ == old(m)@.remove(n.buf.block()),
            r is Err ==> final(m)@ == old(m)@ { unimplemented!() }
}
}
pub use locks::*;
pub mod nodes { use super::*;
//@take g struct Node
}
pub use nodes::*;
/// What lies behind a cell.
pub mod paths { use super::*;
pub type Lock<T> = Arc<OnceLock<Node<T>>>;
pub open spec fn after<T>(l: Lock<T>) -> Lock<T> { (l.ever()->0).next }
pub open spec fn at<T>(l: Lock<T>) -> Seq<T> { (l.ever()->0).buf.fixed() }
/// the `n`th cell after `l`
pub open spec fn nth<T>(l: Lock<T>, n: nat) -> Lock<T> decreases n { if n == 0 { l } else { after(nth(l, (n - 1) as nat)) } }
/// what lies between
pub open spec fn flat<T>(l: Lock<T>, n: nat) -> Seq<T> decreases n { if n == 0 { Seq::empty() } else { flat(l, (n - 1) as nat) + at(nth(l, (n - 1) as nat)) } }
/// all of that can be seen at the time `t`
pub open spec fn shown<T>(l: Lock<T>, n: nat, t: int) -> bool { forall|i: nat| i < n ==> #[trigger] nth(l, i).seen(t) }
/// between the cells `a` and `b` lie `items`
pub open spec fn path<T>(a: Lock<T>, items: Seq<T>, b: Lock<T>, t: int) -> bool {
    exists|n: nat| #[trigger] nth(a, n) == b && flat(a, n) == items && shown(a, n, t)
}
pub proof fn nth_nth<T>(a: Lock<T>, n: nat, m: nat)
    ensures nth(a, n + m) == nth(nth(a, n), m), flat(a, n + m) == flat(a, n) + flat(nth(a, n), m) decreases m
{
    if m == 0 { assert(flat(a, n) + Seq::<T>::empty() =~= flat(a, n)); } else {
        nth_nth(a, n, (m - 1) as nat);
        let b = nth(a, n);
        assert(nth(a, n + m) == after(nth(a, (n + m - 1) as nat)));
        assert((n + m - 1) as nat == n + (m - 1) as nat);
        assert(flat(a, n) + (flat(b, (m - 1) as nat) + at(nth(b, (m - 1) as nat))) =~= (flat(a, n) + flat(b, (m - 1) as nat)) + at(nth(b, (m - 1) as nat)));
    }
}
pub proof fn no_path<T>(a: Lock<T>, t: int) ensures path(a, Seq::empty(), a, t) { assert(nth(a, 0) == a); }
pub proof fn one_node<T>(a: Lock<T>, t: int) requires a.seen(t) ensures path(a, at(a), after(a), t) {
    assert(nth(a, 0) == a); assert(flat(a, 0) =~= Seq::empty());
    assert(nth(a, 1) == after(nth(a, 0)));
    assert(flat(a, 1) == flat(a, 0) + at(nth(a, 0)));
    assert(flat(a, 1) =~= at(a));
    assert forall|i: nat| i < 1 implies #[trigger] nth(a, i).seen(t) by { assert(i == 0); }
}
pub proof fn joined<T>(a: Lock<T>, x: Seq<T>, b: Lock<T>, y: Seq<T>, c: Lock<T>, t: int, u: int)
    requires path(a, x, b, t), path(b, y, c, u), t <= u, ensures path(a, x + y, c, u)
{
    let n = choose|n: nat| #[trigger] nth(a, n) == b && flat(a, n) == x && shown(a, n, t);
    let m = choose|m: nat| #[trigger] nth(b, m) == c && flat(b, m) == y && shown(b, m, u);
    nth_nth(a, n, m);
    assert forall|i: nat| i < n + m implies #[trigger] nth(a, i).seen(u) by {
        if i < n { assert(nth(a, i).seen(t)); } else { let j = (i - n) as nat; nth_nth(a, n, j); assert(nth(b, j).seen(u)); assert(n + j == i); }
    }
}
/// of two paths from a cell one goes on where the other ends
pub proof fn same_way<T>(a: Lock<T>, x: Seq<T>, b: Lock<T>, y: Seq<T>, c: Lock<T>, t: int)
    requires path(a, x, b, t), path(a, y, c, t),
    ensures (exists|z: Seq<T>| y == x + z && #[trigger] path(b, z, c, t)) || (exists|z: Seq<T>| x == y + z && #[trigger] path(c, z, b, t))
{
    let n = choose|n: nat| #[trigger] nth(a, n) == b && flat(a, n) == x && shown(a, n, t);
    let m = choose|m: nat| #[trigger] nth(a, m) == c && flat(a, m) == y && shown(a, m, t);
    if n <= m { rest_of(a, n, m, t); } else { rest_of(a, m, n, t); }
}
proof fn rest_of<T>(a: Lock<T>, n: nat, m: nat, t: int)
    requires n <= m, shown(a, m, t), ensures path(nth(a, n), flat(nth(a, n), (m - n) as nat), nth(a, m), t), flat(a, m) == flat(a, n) + flat(nth(a, n), (m - n) as nat)
{
    let k = (m - n) as nat;
    nth_nth(a, n, k);
    assert(n + k == m);
    assert forall|i: nat| i < k implies #[trigger] nth(nth(a, n), i).seen(t) by { nth_nth(a, n, i); assert(nth(a, n + i).seen(t)); }
}
}
pub use paths::*;
/// lengths of slices are counts (parcom-core)
pub trait SequenceSegment { type Length; }
impl<T> SequenceSegment for [T] { type Length = usize; }
pub mod buffers { use super::*;
broadcast use vecs::fixed_count;
//@memtype
//@take buf struct GenericSequenceBuffer
//@take buf struct Iter
pub open spec fn placed<T>(l: Lock<T>, off: usize, t: int) -> bool { off > 0 ==> l.seen(t) && off <= at(l).len() }
/// from the place `a` to the place `b` are `k` items
pub open spec fn moved<T>(a: Lock<T>, x: usize, b: Lock<T>, y: usize, k: int, t: int) -> bool {
    exists|s: Seq<T>| #[trigger] path(a, s, b, t) && s.len() + y - x == k
}
pub proof fn starting<T>(l: Lock<T>, x: usize, t: int) ensures moved(l, x, l, x, 0, t) { no_path(l, t); }
pub broadcast proof fn within<T>(a: Lock<T>, x: usize, b: Lock<T>, y: usize, k: int, t: int, y2: usize, k2: int, u: int)
    requires #[trigger] moved(a, x, b, y, k, t), t <= u, k2 - k == y2 - y,
    ensures #[trigger] moved(a, x, b, y2, k2, u)
{
    let s = choose|s: Seq<T>| #[trigger] path(a, s, b, t) && s.len() + y - x == k;
    no_path(b, u);
    joined(a, s, b, Seq::empty(), b, t, u);
    assert(s + Seq::<T>::empty() =~= s);
}
pub broadcast proof fn onwards<T>(a: Lock<T>, x: usize, b: Lock<T>, y: usize, k: int, t: int, c: Lock<T>, y2: usize, k2: int, u: int)
    requires #[trigger] moved(a, x, b, y, k, t), t <= u, b.seen(u), c == after(b), y2 == 0, k2 - k == at(b).len() - y,
    ensures #[trigger] moved(a, x, c, y2, k2, u)
{
    let s = choose|s: Seq<T>| #[trigger] path(a, s, b, t) && s.len() + y - x == k;
    one_node(b, u);
    joined(a, s, b, at(b), after(b), t, u);
}
}
pub mod readers { use super::*;
broadcast use {vecs::fixed_count, buffers::within, buffers::onwards};
impl<T> GenericSequenceBuffer<T> { pub open spec fn fit(&self, t: int) -> bool { placed(self.head_node, self.head_offset, t) } }
impl<'a, T> Iter<'a, T> { pub open spec fn fit(&self, t: int) -> bool { placed(*self.node, self.offset, t) } }
//@impl buf - GenericSequenceBuffer only=new
//@fn new
    ensures res.head_offset == 0, res.head_node == $0,
//@end
//@memtype Clock
//@impl buf SequenceBuffer GenericSequenceBuffer inherent
//@inject
//@fn advance loops=1
    requires old(self).fit(old(vx_mem).now()),
    ensures final(self).fit(final(vx_mem).now()), res <= $0, old(vx_mem).now() <= final(vx_mem).now(),
        moved(old(self).head_node, old(self).head_offset, final(self).head_node, final(self).head_offset, $0 - res, final(vx_mem).now()),
        res > 0 ==> !final(self).head_node.seen(old(vx_mem).now()),
//@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@head
    proof { starting(self.head_node, self.head_offset, vx_mem.now()); }
//@loop 0
    invariant_except_break placed(*$node, $offset, vx_mem.now()),
        moved(old(self).head_node, old(self).head_offset, *$node, $offset, $0 - $remain, vx_mem.now()),
    invariant old(vx_mem).now() <= vx_mem.now(), $remain <= $0,
    ensures placed(*$node, $offset, vx_mem.now()),
        moved(old(self).head_node, old(self).head_offset, *$node, $offset, $0 - $remain, vx_mem.now()),
        $remain > 0 ==> !$node.seen(old(vx_mem).now()),
//@fn segments
    ensures res.offset == self.head_offset, *res.node == self.head_node,
//@end
//@impl buf Iterator Iter inherent
//@inject
//@fn next
    requires old(self).fit(old(vx_mem).now()),
    ensures final(self).fit(final(vx_mem).now()), old(vx_mem).now() <= final(vx_mem).now(), match res {
        Some(s) => old(self).node.seen(final(vx_mem).now()) && s@ == at(*old(self).node).skip(old(self).offset as int) && *final(self).node == after(*old(self).node) && final(self).offset == 0,
        None => !old(self).node.seen(old(vx_mem).now()) && final(self).node == old(self).node && final(self).offset == old(self).offset,
    },
//@end
}
pub use buffers::*;
pub use readers::*;
pub mod responses { use super::*;
//@take ctl struct Control
//@take ctl enum Response
//@take ctl struct Request
/// the items that an answer says are to be committed
pub open spec fn told<T, E>(r: Response<T, E>, m: &Mem<T>) -> Seq<T> {
    match r { Response::Advance { buf, .. } => buf.items(m), Response::Finish(buf) => buf.items(m), _ => Seq::empty() }
}
/// these are in the memory, apart from those of `v`
pub open spec fn apart<T, E>(r: Response<T, E>, v: Vec<T>, m: &Mem<T>) -> bool {
    match r { Response::Advance { buf, .. } => buf.wf(m) && buf.block() != v.block(), Response::Finish(buf) => buf.wf(m) && buf.block() != v.block(), _ => true }
}
/// `v` holds back `held` after `r` was answered
pub open spec fn holds<T, E>(r: Response<T, E>, v: Vec<T>, held: Seq<T>, m: &Mem<T>) -> bool { v.wf(m) && v.items(m) =~= held && apart(r, v, m) }
/// an answer to a completed write, after which `v` is the buffer
pub open spec fn counts<T, E>(r: Response<T, E>, v: Vec<T>) -> bool {
    match r { Response::Advance { len, cap, .. } => len == v.count() && cap == v.cap(), Response::Appended { len, cap } => len == v.count() && cap == v.cap(), _ => false }
}
impl<'a, T, E> Request<'a, T, E> {
    /// what was held back before the write
    pub open spec fn before(&self, m: &Mem<T>) -> Seq<T> { self.to_append.items(m) + m.row(self.buf.start(), self.offset as int) }
    /// the written items
    pub open spec fn written(&self, m: &Mem<T>) -> Seq<T> { m.row(self.buf.start().plus(self.offset as int), self.buf.count() - self.offset) }
    pub open spec fn front(&self, m: &Mem<T>) -> Seq<T> { m.row(self.buf.start(), self.offset as int) }
    pub open spec fn whole(&self, m: &Mem<T>) -> Seq<T> { self.buf.items(m) }
    pub open spec fn fits(&self) -> bool { self.offset <= self.buf.count() && self.to_append.count() >= 0 && (self.to_append.count() > 0 ==> self.offset == 0) }
    pub proof fn parts(&self, m: &Mem<T>)
        requires self.fits(),
        ensures self.before(m) + self.written(m) == self.to_append.items(m) + self.whole(m),
            self.to_append.count() == 0 ==> self.to_append.items(m) == Seq::<T>::empty() && self.before(m) == self.whole(m).take(self.offset as int)
                && Seq::<T>::empty() + self.whole(m) == self.whole(m),
            self.to_append.count() > 0 ==> self.before(m) == self.to_append.items(m),
    {
        broadcast use memory::ptr_plus;
        assert(self.before(m) + self.written(m) =~= self.to_append.items(m) + self.whole(m));
        assert(Seq::<T>::empty() + self.whole(m) =~= self.whole(m));
        if self.to_append.count() == 0 { assert(self.to_append.items(m) =~= Seq::<T>::empty()); assert(self.before(m) =~= self.whole(m).take(self.offset as int)); }
        else { assert(self.before(m) =~= self.to_append.items(m)); }
    }
}
pub broadcast proof fn nothing_before<'a, T, E>(w: Request<'a, T, E>, m: &Mem<T>)
    ensures w.to_append.count() == 0 ==> #[trigger] w.before(m) == w.front(m), w.offset == 0 ==> w.before(m) == w.to_append.items(m)
{
    if w.to_append.count() == 0 { assert(w.before(m) =~= w.front(m)); }
    if w.offset == 0 { assert(w.before(m) =~= w.to_append.items(m)); }
}
}
pub use responses::*;
pub mod requests { use super::*;
broadcast use {vecs::fixed_count, memory::ptr_plus};
//@memtype
//@impl ctl - Control only=new
//@fn new
    ensures *res.buf == *old($0), *final(res.buf) == *final($0), res.strategy == $1,
//@end
//@memtype Mem<T>
//@impl ctl BufferWriter Request
//@inject
    open spec fn buf(&self) -> Buf<T> { Buf { start: self.buf.start().plus(self.offset as int), cap: self.buf.cap() - self.offset, written: self.buf.count() - self.offset } }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool {
        self.to_append == o.to_append && self.offset == o.offset && self.buf.start() == o.buf.start() && self.buf.cap() == o.buf.cap() && *final(self.buf) == *final(o.buf)
    }
    open spec fn sound(&self) -> bool { self.offset <= self.buf.count() <= self.buf.cap() <= usize::MAX && self.buf.start().at() == 0 && (self.to_append.count() > 0 ==> self.offset == 0) }
    open spec fn outside(&self, m: &Mem<T>) -> bool {
        self.to_append.wf(m) && self.to_append.block() != self.buf.block() && m.all_full(self.buf.start(), self.offset as int)
    }
    #[verifier::prophetic]
    open spec fn advanced(&self, m0: &Mem<T>, m1: &Mem<T>, res: Response<T, E>) -> bool {
        told(res, m1) + final(self.buf).items(m1) == self.before(m0) + self.buf().items(m0) && holds(res, *final(self.buf), final(self.buf).items(m1), m1) && counts(res, *final(self.buf))
    }
    #[verifier::prophetic]
    open spec fn cancelled(&self, m0: &Mem<T>, err: E, m1: &Mem<T>, res: Response<T, E>) -> bool {
        res == Response::<T, E>::Cancel(err) && holds(res, *final(self.buf), self.before(m0), m1)
    }
    proof fn laws() {}
//@fn advance
//@head
    proof { self.parts(vx_mem); }
//@fn cancel
//@head
    proof { self.parts(vx_mem); }
//@end
}
pub use requests::*;
pub mod requesting { use super::*;
broadcast use {vecs::fixed_count, memory::ptr_plus, responses::nothing_before};
//@memtype Mem<T>
//@impl ctl SequenceControl Control
//@inject
    open spec fn ready(&self, m: &Mem<T>) -> bool { self.buf.wf(m) }
    open spec fn grants(&self, n: int) -> bool { 0 <= n <= usize::MAX }
    #[verifier::prophetic]
    open spec fn opened(&self, n: int, m0: &Mem<T>, w: Request<'a, T, E>, m1: &Mem<T>) -> bool {
        w.before(m1) =~= self.buf.items(m0) && *final(w.buf) == *final(self.buf)
    }
    #[verifier::prophetic]
    open spec fn refused(&self, m0: &Mem<T>, err: E, m1: &Mem<T>, res: Response<T, E>) -> bool {
        res == Response::<T, E>::Cancel(err) && holds(res, *final(self.buf), self.buf.items(m0), m1)
    }
    #[verifier::prophetic]
    open spec fn finished(&self, m0: &Mem<T>, m1: &Mem<T>, res: Response<T, E>) -> bool {
        res is Finish && told(res, m1) =~= self.buf.items(m0) && holds(res, *final(self.buf), Seq::empty(), m1)
    }
//@end
}
pub use requesting::*;
pub mod settling { use super::*;
/// what an answer to a source's step means for the items held back: those of `b0` before, of `b1` afterwards
pub open spec fn settled<T, E>(b0: Vec<T>, m0: &Mem<T>, a: Act<T, E>, b1: Vec<T>, m1: &Mem<T>, r: Response<T, E>) -> bool {
    match a {
        Act::Refuse(e) => r == Response::<T, E>::Cancel(e) && holds(r, b1, b0.items(m0), m1),
        Act::Fail(_, _, e) => r == Response::<T, E>::Cancel(e) && holds(r, b1, b0.items(m0), m1),
        Act::Finish => r is Finish && told(r, m1) =~= b0.items(m0) && holds(r, b1, Seq::empty(), m1),
        Act::Write(_, items) => counts(r, b1) && told(r, m1) + b1.items(m1) =~= b0.items(m0) + items && holds(r, b1, b1.items(m1), m1),
    }
}
pub proof fn same_before<'a, T, E>(w0: Request<'a, T, E>, ma: &Mem<T>, items: Seq<T>, w: Request<'a, T, E>, mb: &Mem<T>)
    requires wrote(w0, ma, items, w, mb), ensures w.before(mb) == w0.before(ma)
{
    broadcast use memory::ptr_plus;
    assert(w.kin(&w0));
    assert(w.before(mb) =~= w0.before(ma));
}
/// a step of the source from `s0` to `s1`
pub open spec fn stepped<T, S: SequenceSource<Item = T>>(s0: S, s1: S, b0: Vec<T>, m0: &Mem<T>, b1: Vec<T>, m1: &Mem<T>, r: Response<T, S::Error>) -> bool {
    exists|a: Act<T, S::Error>| s0.gives(a, s1) && #[trigger] settled(b0, m0, a, b1, m1, r)
}
#[verifier::prophetic]
pub open spec fn control_stepped<'a, T, S: SequenceSource<Item = T>, B: BufferStrategy>(s0: S, s1: S, c: Control<'a, T, S::Error, B>, m0: &Mem<T>, m1: &Mem<T>, r: Response<T, S::Error>) -> bool {
    stepped(s0, s1, *c.buf, m0, *final(c.buf), m1, r)
}
pub broadcast proof fn settles<'a, T, S: SequenceSource<Item = T>, B: BufferStrategy>(s0: S, s1: S, c: Control<'a, T, S::Error, B>, m0: &Mem<T>, a: Act<T, S::Error>, m1: &Mem<T>, r: Response<T, S::Error>)
    requires #[trigger] s0.gives(a, s1), #[trigger] did(c, m0, a, m1, r),
    ensures control_stepped(s0, s1, c, m0, m1, r)
{
    match a {
        Act::Write(n, items) => {
            let (w0, ma, w, mb) = choose|w0: Request<'a, T, S::Error>, ma: &Mem<T>, w: Request<'a, T, S::Error>, mb: &Mem<T>|
                #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n && #[trigger] wrote(w0, ma, items, w, mb) && w.advanced(mb, m1, r);
            same_before(w0, ma, items, w, mb);
        }
        Act::Fail(n, items, e) => {
            let (w0, ma, w, mb) = choose|w0: Request<'a, T, S::Error>, ma: &Mem<T>, w: Request<'a, T, S::Error>, mb: &Mem<T>|
                #[trigger] c.opened(n, m0, w0, ma) && w0.buf().cap >= n && #[trigger] wrote(w0, ma, items, w, mb) && w.cancelled(mb, e, m1, r);
            same_before(w0, ma, items, w, mb);
        }
        _ => {}
    }
    assert(settled(*c.buf, m0, a, *final(c.buf), m1, r));
}
pub broadcast proof fn tells<T, S: SequenceSource<Item = T>>(s0: S, s1: S, b0: Vec<T>, m0: &Mem<T>, b1: Vec<T>, m1: &Mem<T>, r: Response<T, S::Error>)
    requires #[trigger] stepped(s0, s1, b0, m0, b1, m1, r), ensures tellable(r, m1) {}
/// what is reported about an answer by which `n` items were committed
pub open spec fn reported<T, E>(r: Response<T, E>, n: int, res: Result<LoadInfo, E>) -> bool {
    match r {
        Response::Cancel(e) => res == Err::<LoadInfo, E>(e),
        Response::Finish(_) => res matches Ok(i) && i.is_done && i.commited == n && i.uncommited == 0 && i.buffer_capacity == 0,
        Response::Advance { len, cap, .. } => res matches Ok(i) && !i.is_done && i.commited == n && i.uncommited == len && i.buffer_capacity == cap,
        Response::Appended { len, cap } => res matches Ok(i) && !i.is_done && i.commited == n && i.uncommited == len && i.buffer_capacity == cap,
    }
}
/// nothing changed but that the items to be committed may have been given away
pub open spec fn given<T, E>(r: Response<T, E>, m0: &Mem<T>, m1: &Mem<T>) -> bool {
    match r {
        Response::Advance { buf, .. } => m1@ == m0@ || m1@ == m0@.remove(buf.block()),
        Response::Finish(buf) => m1@ == m0@ || m1@ == m0@.remove(buf.block()),
        _ => m1@ == m0@,
    }
}
pub open spec fn tellable<T, E>(r: Response<T, E>, m: &Mem<T>) -> bool {
    match r { Response::Advance { buf, .. } => buf.wf(m), Response::Finish(buf) => buf.wf(m), _ => true }
}
pub broadcast proof fn same_cell<T>(a: Lock<T>, s: Seq<T>, t: int)
    requires s.len() == 0, ensures #[trigger] path(a, s, a, t) { no_path(a, t); assert(s =~= Seq::empty()); }
pub broadcast proof fn next_cell<T>(a: Lock<T>, s: Seq<T>, b: Lock<T>, t: int)
    requires a.seen(t), s == at(a), b == after(a), ensures #[trigger] path(a, s, b, t) { one_node(a, t); }
pub trait Project: Sized { fn project(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self); }
impl<X> Project for X { fn project(&mut self) -> (r: &mut Self) { self } }
}
pub use settling::*;
pub mod loaders { use super::*;
broadcast use {vecs::fixed_count, settling::settles, settling::same_cell, settling::next_cell};
//@take load struct GenericSequenceLoader
//@take load struct Load
//@memtype Mem<T>
impl<T, S: SequenceSource<Item = T>, B: BufferStrategy> GenericSequenceLoader<T, S, B> {
    pub open spec fn fit(&self, m: &Mem<T>) -> bool { self.buf.wf(m) && self.source.fit() }
    /// items loaded but not committed
    pub open spec fn held(&self, m: &Mem<T>) -> Seq<T> { self.buf.items(m) }
}
//@impl load - GenericSequenceLoader only=new
//@fn new
    requires $1.fit(),
    ensures res.fit(final(vx_mem)), res.held(final(vx_mem)).len() == 0, res.tail_node == $0, res.source == $1,
//@end
//@take load fn commit_to ...
//@fn commit_to
    requires $1.wf(old(vx_mem)),
    ensures path(*old($0), $1.items(old(vx_mem)), *final($0), final(vx_mem).now()), final(vx_mem)@ == old(vx_mem)@.remove($1.block()),
//@head
    // only the loader sets the nodes (TRUSTED)
    let ghost vx_refusal = true;
//@end
//@impl load Future Load inherent
//@inject
//@fn poll
    requires tellable(old(self).fut.out(), old(vx_mem)),
    ensures final(self).fut.out() == old(self).fut.out(), *final(final(self).tail_node) == *final(old(self).tail_node),
        match res {
            Poll::Ready(r) => path(*old(self).tail_node, told(old(self).fut.out(), old(vx_mem)), *final(self).tail_node, final(vx_mem).now())
                && reported(old(self).fut.out(), told(old(self).fut.out(), old(vx_mem)).len() as int, r) && given(old(self).fut.out(), old(vx_mem), final(vx_mem)),
            Poll::Pending => *final(vx_mem) == *old(vx_mem) && *final(self).tail_node == *old(self).tail_node,
        },
//@end
//@impl load SequenceLoader GenericSequenceLoader inherent
//@inject
//@fn force_commit
    requires old(self).fit(old(vx_mem)),
    ensures final(self).fit(final(vx_mem)), final(self).source == old(self).source, final(self).held(final(vx_mem)).len() == 0,
        path(old(self).tail_node, old(self).held(old(vx_mem)), final(self).tail_node, final(vx_mem).now()),
//@fn load
    requires old(self).fit(old(vx_mem)), forall|n: int| #[trigger] S::asks(n) ==> 0 <= n <= usize::MAX,
    ensures final(self).source.fit(), *res.tail_node == old(self).tail_node, *final(res.tail_node) == final(self).tail_node,
        stepped(old(self).source, final(self).source, old(self).buf, old(vx_mem), final(self).buf, final(vx_mem), res.fut.out()),
//@end
}
pub use loaders::*;
pub mod builders { use super::*;
broadcast use {settling::same_cell};
//@take g struct GenericSequenceBuilder
//@memtype Mem<<S as SequenceSource>::Item>
//@impl g SequenceBuilder GenericSequenceBuilder inherent
//@inject
//@fn build
    requires $0.fit(),
    ensures res.1.fit(final(vx_mem)), res.1.source == $0, res.0.head_offset == 0, res.1.held(final(vx_mem)).len() == 0,
        path(res.0.head_node, Seq::empty(), res.1.tail_node, final(vx_mem).now()),
//@end
}
pub use builders::*;
pub mod theorem { use super::*;
broadcast use settling::tells;
/// what a load does when the source's step is `a`: `c` are the items it makes readable, `cap` the capacity it reports
pub open spec fn outcome<T, E>(a: Act<T, E>, c: Seq<T>, held0: Seq<T>, held1: Seq<T>, res: Result<LoadInfo, E>) -> bool {
    match a {
        Act::Refuse(e) => c.len() == 0 && held1 == held0 && res == Err::<LoadInfo, E>(e),
        Act::Fail(_, _, e) => c.len() == 0 && held1 == held0 && res == Err::<LoadInfo, E>(e),
        Act::Finish => c == held0 && held1.len() == 0 && (res matches Ok(i) && i.is_done && i.commited == c.len() && i.uncommited == 0 && i.buffer_capacity == 0),
        Act::Write(_, items) => c + held1 == held0 + items && (res matches Ok(i) && !i.is_done && i.commited == c.len() && i.uncommited == held1.len() && i.uncommited <= i.buffer_capacity),
    }
}
pub open spec fn loaded<T, S: SequenceSource<Item = T>, B: BufferStrategy>(l0: GenericSequenceLoader<T, S, B>, m0: &Mem<T>, l1: GenericSequenceLoader<T, S, B>, m1: &Mem<T>, res: Result<LoadInfo, S::Error>) -> bool {
    exists|a: Act<T, S::Error>, c: Seq<T>| l0.source.gives(a, l1.source) && #[trigger] path(l0.tail_node, c, l1.tail_node, m1.now()) && #[trigger] outcome(a, c, l0.held(m0), l1.held(m1), res)
}
proof fn loads<T, S: SequenceSource<Item = T>, B: BufferStrategy>(l0: GenericSequenceLoader<T, S, B>, m0: &Mem<T>, l1: GenericSequenceLoader<T, S, B>, m1: &Mem<T>, m2: &Mem<T>, r: Response<T, S::Error>, res: Result<LoadInfo, S::Error>)
    requires l0.fit(m0), l1.source.fit(), stepped(l0.source, l1.source, l0.buf, m0, l1.buf, m1, r), given(r, m1, m2),
        path(l0.tail_node, told(r, m1), l1.tail_node, m2.now()), reported(r, told(r, m1).len() as int, res),
    ensures l1.fit(m2), loaded(l0, m0, l1, m2, res)
{
    let a = choose|a: Act<T, S::Error>| l0.source.gives(a, l1.source) && #[trigger] settled(l0.buf, m0, a, l1.buf, m1, r);
    let c = told(r, m1);
    assert(l1.buf.items(m2) =~= l1.buf.items(m1));
    assert(outcome(a, c, l0.held(m0), l1.held(m2), res));
}
/// The theorem of C16 about loading: whoever loads and polls to the end has `loaded` hold.
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
fn load_step<T, S: SequenceSource<Item = T>, B: BufferStrategy>(l: &mut GenericSequenceLoader<T, S, B>, cx: &mut Context<'_>, Tracked(vx_mem): Tracked<&mut Mem<T>>) -> (res: Result<LoadInfo, S::Error>)
    requires old(l).fit(old(vx_mem)), forall|n: int| #[trigger] S::asks(n) ==> 0 <= n <= usize::MAX,
    ensures final(l).fit(final(vx_mem)), loaded(*old(l), old(vx_mem), *final(l), final(vx_mem), res),
{
    let ghost l0 = *l;
    let ghost m0 = *vx_mem;
    let mut fut = l.load(Tracked(vx_mem));
    let ghost m1 = *vx_mem;
    let ghost r = fut.fut.out();
    let ghost t = *final(fut.tail_node);
    loop
        invariant *vx_mem == m1, fut.fut.out() == r, *fut.tail_node == l0.tail_node, *final(fut.tail_node) == t,
    {
        match fut.poll(cx, Tracked(vx_mem)) {
            Poll::Ready(res) => {
                proof { loads(l0, &m0, *l, &m1, vx_mem, r, res); }
                return res;
            }
            Poll::Pending => {}
        }
    }
}
/// The history: of the items `written` by the source so far, those not held back can be reached from the cell `root`.
pub open spec fn delivered<T>(root: Lock<T>, tail: Lock<T>, held: Seq<T>, written: Seq<T>, t: int) -> bool {
    exists|c: Seq<T>| #[trigger] path(root, c, tail, t) && c + held == written
}
pub open spec fn added_by<T, E>(a: Act<T, E>) -> Seq<T> { match a { Act::Write(_, items) => items, _ => Seq::empty() } }
pub proof fn history_loads<T, E>(root: Lock<T>, tail: Lock<T>, held: Seq<T>, written: Seq<T>, t: int, a: Act<T, E>, c: Seq<T>, tail2: Lock<T>, held2: Seq<T>, t2: int, res: Result<LoadInfo, E>)
    requires delivered(root, tail, held, written, t), path(tail, c, tail2, t2), t <= t2, outcome(a, c, held, held2, res),
    ensures delivered(root, tail2, held2, written + added_by(a), t2), a is Finish ==> path(root, written, tail2, t2)
{
    let x = choose|x: Seq<T>| #[trigger] path(root, x, tail, t) && x + held == written;
    joined(root, x, tail, c, tail2, t, t2);
    assert(c + held2 =~= held + added_by(a));
    assert((x + c) + held2 =~= written + added_by(a)) by { assert((x + c) + held2 =~= x + (c + held2)); assert(x + (held + added_by(a)) =~= (x + held) + added_by(a)); }
    if a is Finish { assert(x + c =~= written); }
}
pub proof fn history_forced<T>(root: Lock<T>, tail: Lock<T>, held: Seq<T>, written: Seq<T>, t: int, tail2: Lock<T>, t2: int)
    requires delivered(root, tail, held, written, t), path(tail, held, tail2, t2), t <= t2,
    ensures path(root, written, tail2, t2)
{
    let x = choose|x: Seq<T>| #[trigger] path(root, x, tail, t) && x + held == written;
    joined(root, x, tail, held, tail2, t, t2);
}
/// What a reader has passed (`s`, from the same root) is a prefix of what was committed (`c`) while the last cell is not set,
pub proof fn reads_a_prefix<T>(root: Lock<T>, c: Seq<T>, tail: Lock<T>, s: Seq<T>, node: Lock<T>, t: int)
    requires path(root, c, tail, t), path(root, s, node, t), !tail.seen(t),
    ensures s.len() <= c.len(), s == c.take(s.len() as int)
{
    let m = choose|m: nat| #[trigger] nth(root, m) == tail && flat(root, m) == c && shown(root, m, t);
    let n = choose|n: nat| #[trigger] nth(root, n) == node && flat(root, n) == s && shown(root, n, t);
    if n > m { assert(nth(root, m).seen(t)); }
    nth_nth(root, n, (m - n) as nat);
    assert(s =~= c.take(s.len() as int));
}
/// and it is all of it once the reader has found nothing more.
pub proof fn reads_all<T>(root: Lock<T>, c: Seq<T>, tail: Lock<T>, t: int, s: Seq<T>, node: Lock<T>, t0: int, u: int)
    requires path(root, c, tail, t), path(root, s, node, u), t <= t0, !node.seen(t0),
    ensures c.len() <= s.len(), c == s.take(c.len() as int)
{
    let m = choose|m: nat| #[trigger] nth(root, m) == tail && flat(root, m) == c && shown(root, m, t);
    let n = choose|n: nat| #[trigger] nth(root, n) == node && flat(root, n) == s && shown(root, n, u);
    if n < m { assert(nth(root, n).seen(t)); }
    nth_nth(root, m, (n - m) as nat);
    assert(c =~= s.take(c.len() as int));
}
/// The segments of a sequence, read until there are no more, are what lies behind its place.
pub open spec fn read<T>(b: GenericSequenceBuffer<T>, s: Seq<T>, node: Lock<T>, t: int) -> bool {
    exists|x: Seq<T>| #[trigger] path(b.head_node, x, node, t) && if b.head_offset <= x.len() { s == x.skip(b.head_offset as int) } else { s.len() == 0 && x.len() == 0 && node == b.head_node }
}
#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
fn read_all<T>(b: &GenericSequenceBuffer<T>, Tracked(vx_mem): Tracked<&mut Clock>) -> (res: Ghost<(Seq<T>, Lock<T>)>)
    requires b.fit(old(vx_mem).now()),
    ensures read(*b, res@.0, res@.1, final(vx_mem).now()), !res@.1.seen(old(vx_mem).now()),
{
    let mut it = b.segments();
    let ghost mut s = Seq::<T>::empty();
    let ghost mut x = Seq::<T>::empty();
    proof { no_path(b.head_node, vx_mem.now()); }
    loop
        invariant it.fit(vx_mem.now()), path(b.head_node, x, *it.node, vx_mem.now()), old(vx_mem).now() <= vx_mem.now(),
            (it.node == b.head_node && it.offset == b.head_offset && x.len() == 0 && s.len() == 0) || (it.offset == 0 && b.head_offset <= x.len() && s == x.skip(b.head_offset as int)),
    {
        let ghost l = *it.node;
        let ghost t = vx_mem.now();
        match it.next(Tracked(vx_mem)) {
            Some(seg) => {
                proof {
                    one_node(l, vx_mem.now());
                    joined(b.head_node, x, l, at(l), after(l), t, vx_mem.now());
                    s = s + seg@;
                    x = x + at(l);
                    assert(s =~= x.skip(b.head_offset as int));
                }
            }
            None => {
                proof { no_path(l, vx_mem.now()); joined(b.head_node, x, l, Seq::empty(), l, t, vx_mem.now()); assert(x + Seq::<T>::empty() =~= x); if b.head_offset <= x.len() { assert(s =~= x.skip(b.head_offset as int)); } }
                return Ghost((s, *it.node));
            }
        }
    }
}
}
pub use theorem::*;
/// What the runner takes for granted about a buffer (C22, overlay/runner.rs: SequenceBuffer) holds of this one: its feed is the
/// cell `root` it was built on, `total` is what can be reached from there.
pub mod as_runner { use super::*;
pub open spec fn closes<T>(root: Lock<T>, c: Seq<T>, t: int) -> bool { exists|b: Lock<T>| #[trigger] path(root, c, b, t) && !b.seen(t) }
/// the items there are at the time `t`
pub open spec fn all<T>(root: Lock<T>, t: int) -> Seq<T> { choose|c: Seq<T>| closes(root, c, t) }
pub open spec fn total<T>(root: Lock<T>, t: int) -> int { all(root, t).len() as int }
/// at any time finitely many cells are set
pub open spec fn bounded<T>(root: Lock<T>) -> bool { forall|t: int| #[trigger] closes(root, all(root, t), t) }
pub open spec fn buffer_at<T>(b: GenericSequenceBuffer<T>, root: Lock<T>, k: int, t: int) -> bool { b.fit(t) && moved(root, 0, b.head_node, b.head_offset, k, t) }
pub open spec fn iter_at<'a, T>(b: Iter<'a, T>, root: Lock<T>, k: int, t: int) -> bool { b.fit(t) && moved(root, 0, *b.node, b.offset, k, t) }
/// `s` is the items from `a` to `b` of all there are
pub open spec fn holds<T>(root: Lock<T>, a: int, b: int, s: &[T], t: int) -> bool { 0 <= a <= b <= total(root, t) && s@ == all(root, t).subrange(a, b) }
proof fn further<T>(a: Lock<T>, b: Lock<T>, x: usize, k: int, t: int, c: Lock<T>, y: usize, j: int, u: int)
    requires moved(a, 0, b, x, k, t), moved(b, x, c, y, j, u), t <= u, ensures moved(a, 0, c, y, k + j, u)
{
    let p = choose|p: Seq<T>| #[trigger] path(a, p, b, t) && p.len() + x - 0 == k;
    let q = choose|q: Seq<T>| #[trigger] path(b, q, c, u) && q.len() + y - x == j;
    joined(a, p, b, q, c, t, u);
}
/// who finds nothing more has passed all there was
proof fn passed<T>(root: Lock<T>, l: Lock<T>, x: usize, k: int, t0: int, u: int)
    requires bounded(root), moved(root, 0, l, x, k, u), !l.seen(t0), ensures total(root, t0) <= k
{
    let s = choose|s: Seq<T>| #[trigger] path(root, s, l, u) && s.len() + x - 0 == k;
    let c = all(root, t0);
    assert(closes(root, c, t0));
    let b = choose|b: Lock<T>| #[trigger] path(root, c, b, t0) && !b.seen(t0);
    reads_all(root, c, b, t0, s, l, t0, u);
}
/// and nobody passes more than there is
proof fn no_further<T>(root: Lock<T>, l: Lock<T>, x: usize, k: int, u: int)
    requires bounded(root), moved(root, 0, l, x, k, u), placed(l, x, u), ensures k <= total(root, u)
{
    let s = choose|s: Seq<T>| #[trigger] path(root, s, l, u) && s.len() + x - 0 == k;
    let c = all(root, u);
    assert(closes(root, c, u));
    let b = choose|b: Lock<T>| #[trigger] path(root, c, b, u) && !b.seen(u);
    if x == 0 { reads_a_prefix(root, c, b, s, l, u); } else {
        one_node(l, u);
        joined(root, s, l, at(l), after(l), u, u);
        reads_a_prefix(root, c, b, s + at(l), after(l), u);
    }
}
/// what there is only grows
pub proof fn grows<T>(root: Lock<T>, t: int, u: int)
    requires bounded(root), t <= u, ensures total(root, t) <= total(root, u), all(root, t) == all(root, u).take(total(root, t))
{
    let c = all(root, t);
    assert(closes(root, c, t));
    let l = choose|b: Lock<T>| #[trigger] path(root, c, b, t) && !b.seen(t);
    let d = all(root, u);
    assert(closes(root, d, u));
    let b = choose|b: Lock<T>| #[trigger] path(root, d, b, u) && !b.seen(u);
    no_path(l, u);
    joined(root, c, l, Seq::empty(), l, t, u);
    assert(c + Seq::<T>::empty() =~= c);
    reads_a_prefix(root, d, b, c, l, u);
}
fn advance_as_runner<T>(b: &mut GenericSequenceBuffer<T>, n: usize, Ghost(root): Ghost<Lock<T>>, Ghost(k): Ghost<int>, Tracked(vx_mem): Tracked<&mut Clock>) -> (res: usize)
    requires bounded(root), buffer_at(*old(b), root, k, old(vx_mem).now()),
    ensures old(vx_mem).now() <= final(vx_mem).now(), 0 <= res <= n, buffer_at(*final(b), root, k + n - res, final(vx_mem).now()),
        res > 0 ==> total(root, old(vx_mem).now()) <= k + n - res,
        k + n - res <= total(root, final(vx_mem).now()),
{
    let ghost b0 = *b;
    let ghost t0 = vx_mem.now();
    let res = b.advance(n, Tracked(vx_mem));
    proof {
        let u = vx_mem.now();
        further(root, b0.head_node, b0.head_offset, k, t0, b.head_node, b.head_offset, n - res, u);
        if res > 0 { passed(root, b.head_node, b.head_offset, k + n - res, t0, u); }
        no_further(root, b.head_node, b.head_offset, k + n - res, u);
    }
    res
}
fn segments_as_runner<'a, T>(b: &'a GenericSequenceBuffer<T>, Ghost(root): Ghost<Lock<T>>, Ghost(k): Ghost<int>, Ghost(t): Ghost<int>) -> (res: Iter<'a, T>)
    requires buffer_at(*b, root, k, t), ensures iter_at(res, root, k, t)
{ b.segments() }
fn next_as_runner<'a, T>(it: &mut Iter<'a, T>, Ghost(root): Ghost<Lock<T>>, Ghost(k): Ghost<int>, Tracked(vx_mem): Tracked<&mut Clock>) -> (res: (Option<&'a [T]>, Ghost<int>))
    requires bounded(root), iter_at(*old(it), root, k, old(vx_mem).now()),
    ensures old(vx_mem).now() <= final(vx_mem).now(), iter_at(*final(it), root, res.1@, final(vx_mem).now()),
        match res.0 {
            Some(s) => k <= res.1@ <= total(root, final(vx_mem).now()) && holds(root, k, res.1@, s, final(vx_mem).now()),
            None => res.1@ == k && total(root, old(vx_mem).now()) <= k,
        },
{
    let ghost i0 = *it;
    let ghost t0 = vx_mem.now();
    let res = it.next(Tracked(vx_mem));
    let ghost u = vx_mem.now();
    proof {
        within_by(root, *i0.node, i0.offset, k, t0, u);
        if res is None { passed(root, *i0.node, i0.offset, k, t0, u); } else {
            let l = *i0.node;
            let s = choose|s: Seq<T>| #[trigger] path(root, s, l, u) && s.len() + i0.offset - 0 == k;
            one_node(l, u);
            joined(root, s, l, at(l), after(l), u, u);
            let c = all(root, u);
            assert(closes(root, c, u));
            let b = choose|b: Lock<T>| #[trigger] path(root, c, b, u) && !b.seen(u);
            reads_a_prefix(root, c, b, s + at(l), after(l), u);
            assert(moved(root, 0, after(l), 0, (s.len() + at(l).len()) as int, u));
            let w = s + at(l);
            assert(w == c.take(w.len() as int));
            assert forall|i: int| k <= i < w.len() implies #[trigger] c[i] == at(l)[i - s.len()] by { assert(w[i] == c.take(w.len() as int)[i]); }
            assert(k == s.len() + i0.offset && i0.offset <= at(l).len());
            assert(res->0@ == at(l).skip(i0.offset as int));
            assert(res->0@ =~= c.subrange(k, w.len() as int));
        }
    }
    let ghost j = if res is None { k } else { k + at(*i0.node).len() - i0.offset };
    (res, Ghost(j))
}
proof fn within_by<T>(a: Lock<T>, b: Lock<T>, x: usize, k: int, t: int, u: int)
    requires moved(a, 0, b, x, k, t), t <= u, ensures moved(a, 0, b, x, k, u)
{ buffers::within(a, 0, b, x, k, t, x, k, u); }
/// what the runner asks of a length: counts do
proof fn lengths()
    ensures <usize as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
        forall|a: usize, b: usize| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a as int == b as int),
        forall|z: usize| #[trigger] call_ensures(<usize as Default>::default, (), z) ==> z == 0
{}
}
}
fn main() {}
