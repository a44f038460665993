#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, unused_assignments)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::marker::PhantomData;
//@for
//@method chars/0 vx_chars
//@method char_indices/0 vx_char_indices
//@method next/0 vx_next
//@method into_iter/0 vx_into_iter
//@file measured crates/parcom-core/src/sequence/measured.rs
//@file end crates/parcom-metrics/src/end_of_line.rs
//@file line crates/parcom-metrics/src/line_colmn.rs
verus! {
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
//@include memfns.inc
pub fn vx_assert(b: bool) requires b {}
/// going through the characters of a text
pub mod text { use super::*;
#[verifier::external_body]
pub struct Chars<'a>(PhantomData<&'a str>);
impl<'a> Chars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest().first() && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn enumerate(self) -> (r: Numbered<'a>) ensures r.0 == self { Numbered(self) }
}
/// the characters with numbers that are not looked at
pub struct Numbered<'a>(pub Chars<'a>);
impl<'a> Numbered<'a> {
    pub open spec fn rest(&self) -> Seq<char> { self.0.rest() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<(usize, char)>)
        ensures match r {
            Some((_, c)) => old(self).rest().len() > 0 && c == old(self).rest().first() && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}
pub trait Text {
    spec fn all(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: Chars<'_>) ensures r.rest() == self.all();
    fn vx_char_indices(&self) -> (r: Numbered<'_>) ensures r.rest() == self.all();
}
impl Text for str {
    open spec fn all(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: Chars<'_>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: Numbered<'_>) { unimplemented!() }
}
/// `rest` is what is left of `all`
pub open spec fn within(all: Seq<char>, rest: Seq<char>) -> bool { rest.len() <= all.len() && rest == all.skip(all.len() - rest.len()) }
/// what of `all` comes before `rest`
pub open spec fn read(all: Seq<char>, rest: Seq<char>) -> Seq<char> { all.take(all.len() - rest.len()) }
pub broadcast proof fn begin(all: Seq<char>)
    ensures #[trigger] within(all, all), read(all, all) == Seq::<char>::empty()
{ assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<char>::empty()); }
pub broadcast proof fn go_on(all: Seq<char>, rest: Seq<char>)
    requires #[trigger] within(all, rest), rest.len() > 0,
    ensures within(all, #[trigger] rest.drop_first()), read(all, rest.drop_first()) == read(all, rest).push(rest.first())
{
    assert(rest.drop_first() =~= all.skip(all.len() - rest.len() + 1));
    assert(read(all, rest.drop_first()) =~= read(all, rest).push(rest.first()));
}
pub broadcast proof fn all_read(all: Seq<char>, rest: Seq<char>)
    requires rest.len() == 0,
    ensures #[trigger] read(all, rest) == all
{ assert(all.take(all.len() as int) =~= all); }
}
pub use text::{Text, within, read};
pub mod end_of_line { use super::*;
//@take end enum EndOfLineMatch
impl PartialEqSpecImpl for EndOfLineMatch {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &EndOfLineMatch) -> bool { (self is Match <==> other is Match) && (self is PartialMatch <==> other is PartialMatch) }
}
//@impl end PartialEq EndOfLineMatch
//@end
/// the text ends with `c`
pub open spec fn last_is(h: Seq<char>, c: char) -> bool { h.len() > 0 && h.last() == c }
/// the text ends with `\r\n`
pub open spec fn crlf(h: Seq<char>) -> bool { h.len() > 1 && h.last() == '\n' && h[h.len() - 2] == '\r' }
//@trait end EndOfLine
//@inject
    /// a line ending ends where the text `h` ends
    spec fn ends(h: Seq<char>) -> bool;
    /// the state after the text `h`
    spec fn seen(&self, h: Seq<char>) -> bool;
    proof fn fresh(self)
        requires call_ensures(<Self as Default>::default, (), self), ensures self.seen(Seq::empty());
//@fn next
    ensures forall|h: Seq<char>| #[trigger] old(self).seen(h) ==> final(self).seen(h.push($0)) && (res is Match <==> Self::ends(h.push($0))),
//@end
//@take end struct LF
//@impl end Default LF
//@end
//@impl end EndOfLine LF
//@inject
    open spec fn ends(h: Seq<char>) -> bool { last_is(h, '\n') }
    open spec fn seen(&self, h: Seq<char>) -> bool { true }
    proof fn fresh(self) {}
//@end
//@take end struct CR
//@impl end Default CR
//@end
//@impl end EndOfLine CR
//@inject
    open spec fn ends(h: Seq<char>) -> bool { last_is(h, '\r') }
    open spec fn seen(&self, h: Seq<char>) -> bool { true }
    proof fn fresh(self) {}
//@end
//@take end enum CRLFState
//@impl end Default CRLFState
//@fn default
    ensures !(res is CR),
//@end
//@take end struct CRLF
//@impl end Default CRLF
//@fn default
    ensures !(res.state is CR),
//@end
//@impl end EndOfLine CRLF
//@inject
    open spec fn ends(h: Seq<char>) -> bool { crlf(h) }
    open spec fn seen(&self, h: Seq<char>) -> bool { self.state is CR <==> last_is(h, '\r') }
    proof fn fresh(self) {}
//@end
}
pub use end_of_line::*;
pub mod counts { use super::*;
/// a character after the text `h` starts a line: it is the first, or follows a line ending
pub open spec fn starts<L: EndOfLine>(h: Seq<char>) -> bool { h.len() == 0 || L::ends(h) }
/// the lines started in `h`
pub open spec fn lines<L: EndOfLine>(h: Seq<char>) -> nat decreases h.len() {
    if h.len() == 0 { 0 } else { lines::<L>(h.drop_last()) + if starts::<L>(h.drop_last()) { 1nat } else { 0 } }
}
/// the characters of `h` since the last start of a line
pub open spec fn since<L: EndOfLine>(h: Seq<char>) -> nat decreases h.len() {
    if h.len() == 0 { 0 } else { 1 + if starts::<L>(h.drop_last()) { 0 } else { since::<L>(h.drop_last()) } }
}
pub broadcast proof fn pushed<L: EndOfLine>(h: Seq<char>, c: char)
    ensures #![trigger lines::<L>(h.push(c))] #![trigger since::<L>(h.push(c))]
        lines::<L>(h.push(c)) == lines::<L>(h) + if starts::<L>(h) { 1nat } else { 0 },
        since::<L>(h.push(c)) == 1 + if starts::<L>(h) { 0 } else { since::<L>(h) },
{ assert(h.push(c).drop_last() =~= h); }
pub broadcast proof fn fresh<L: EndOfLine>(l: L)
    requires #[trigger] call_ensures(<L as Default>::default, (), l), ensures l.seen(Seq::empty())
{ l.fresh(); }
pub broadcast proof fn add_push(h: Seq<char>, g: Seq<char>, i: int)
    requires 0 <= i < g.len(), ensures #[trigger] (h + g.take(i + 1)) == (h + g.take(i)).push(g[i])
{ assert(h + g.take(i + 1) =~= (h + g.take(i)).push(g[i])); }
pub broadcast proof fn add_none(h: Seq<char>, g: Seq<char>)
    ensures #![trigger g.take(0), h.len()] h + g.take(0) == h, #[trigger] (h + g.take(g.len() as int)) == h + g
{ assert(h + g.take(0) =~= h); assert(g.take(g.len() as int) =~= g); }
}
//@trait measured Meter
//@assoc
type Metrics;
//@inject
    /// `b` has metered what `a` has and then `segment`
    spec fn metered(a: Self, segment: &S, b: Self) -> bool where Self: Sized;
    /// the counts are large enough for `segment`
    spec fn room(&self, segment: &S) -> bool where Self: Sized;
    /// `m` are the metrics of what was metered
    spec fn reads(&self, m: Self::Metrics) -> bool;
//@fn advance
    requires self.room($0),
    ensures Self::metered(self, $0, res),
//@fn metrics
    ensures self.reads(res),
//@end
pub mod line { use super::*;
broadcast use {counts::pushed, counts::add_push, counts::add_none, counts::fresh, text::begin, text::go_on, text::all_read};
//@take line struct LineColumn
//@impl line Default LineColumn
//@fn default
    ensures res.total_count == 0, res.line == 0, res.column == 0,
//@end
//@impl line Clone LineColumn
//@fn clone
    ensures res.total_count == self.total_count, res.line == self.line, res.column == self.column,
//@end
impl<EOL: EndOfLine> PartialEqSpecImpl for LineColumn<EOL> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &LineColumn<EOL>) -> bool { self.total_count == other.total_count && self.line == other.line && self.column == other.column }
}
//@impl line PartialEq LineColumn
//@end
impl<EOL: EndOfLine> Eq for LineColumn<EOL> {}
impl<EOL: EndOfLine> PartialOrdSpecImpl for LineColumn<EOL> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &LineColumn<EOL>) -> Option<core::cmp::Ordering> { PartialOrdSpec::partial_cmp_spec(&self.total_count, &other.total_count) }
}
//@impl line PartialOrd LineColumn
//@end
impl<EOL: EndOfLine> OrdSpecImpl for LineColumn<EOL> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &LineColumn<EOL>) -> core::cmp::Ordering { OrdSpec::cmp_spec(&self.total_count, &other.total_count) }
}
//@impl line Ord LineColumn
//@end
//@take line struct LineColumnMeter
/// `m` are the metrics after the text `h`, counting from `s`
pub open spec fn measures<E: EndOfLine>(s: LineColumn<E>, h: Seq<char>, m: LineColumn<E>) -> bool {
    &&& m.total_count == s.total_count + h.len()
    &&& m.line == s.line + counts::lines::<E>(h)
    &&& m.column == if h.len() == 0 { s.column as nat } else { counts::since::<E>(h) }
}
impl<EOL: EndOfLine> LineColumnMeter<EOL> {
    /// the meter started from `s` has metered the text `h`
    pub open spec fn seen(&self, s: LineColumn<EOL>, h: Seq<char>) -> bool {
        self.state.seen(h) && self.next_is_new_line == counts::starts::<EOL>(h) && measures(s, h, self.location)
    }
}
//@impl line Meter LineColumnMeter
//@inject
    open spec fn metered(a: Self, segment: &str, b: Self) -> bool {
        forall|s: LineColumn<EOL>, h: Seq<char>| #[trigger] a.seen(s, h) ==> b.seen(s, h + segment@)
    }
    open spec fn room(&self, segment: &str) -> bool {
        self.location.total_count + segment@.len() <= usize::MAX && self.location.line + segment@.len() <= usize::MAX && self.location.column + segment@.len() <= usize::MAX
    }
    open spec fn reads(&self, m: LineColumn<EOL>) -> bool {
        m.total_count == self.location.total_count && m.line == self.location.line && m.column == self.location.column
    }
//@fn advance
//@head
    let ghost me = self;
//@loop 0
    invariant
        me == self, within($0@, vx_it0.rest()), me.room($0),
        vx_self.location.total_count <= me.location.total_count + read($0@, vx_it0.rest()).len(),
        vx_self.location.line <= me.location.line + read($0@, vx_it0.rest()).len(),
        vx_self.location.column <= me.location.column + read($0@, vx_it0.rest()).len(),
        forall|s: LineColumn<EOL>, h: Seq<char>| #[trigger] me.seen(s, h) ==> vx_self.seen(s, h + read($0@, vx_it0.rest())),
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
//@end
//@impl line - LineColumnMeter
//@fn new
    ensures res.seen($0, Seq::empty()),
//@end
//@impl line Default LineColumnMeter
//@fn default
    ensures res.seen(res.location, Seq::empty()), res.location.total_count == 0, res.location.line == 0, res.location.column == 0,
//@end
/// metering a text in pieces gives the metrics of the whole
pub proof fn pieces<E: EndOfLine>(s: LineColumn<E>, m0: LineColumnMeter<E>, a: &str, m1: LineColumnMeter<E>, b: &str, m2: LineColumnMeter<E>, ab: &str, m: LineColumnMeter<E>, x: LineColumn<E>, y: LineColumn<E>)
    requires m0.seen(s, Seq::empty()), ab@ == a@ + b@, Meter::<str>::metered(m0, a, m1), Meter::<str>::metered(m1, b, m2), Meter::<str>::metered(m0, ab, m), m2.reads(x), m.reads(y),
    ensures x.total_count == y.total_count, x.line == y.line, x.column == y.column, measures(s, ab@, y),
{
    let e = Seq::<char>::empty();
    assert(m1.seen(s, e + a@));
    assert((e + a@) + b@ =~= ab@ && e + ab@ =~= ab@);
    assert(m2.seen(s, (e + a@) + b@));
    assert(m.seen(s, e + ab@));
}
}
}
fn main() {}
