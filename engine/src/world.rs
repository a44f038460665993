//! Test sequences, scripted parsers and iterations, a deterministic random source, an executor.
use crate::driver::{Rng, R};
use parcom_core::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};


fn noop_raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker { noop_raw() }
    fn noop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    RawWaker::new(std::ptr::null(), &VT)
}
pub fn noop_waker() -> Waker {
    unsafe { Waker::from_raw(noop_raw()) }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    for _ in 0..1_000_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future did not complete");
}

/// a future that is pending `n` times before it gives its value
pub struct Delay<T>(pub usize, pub Option<T>);
impl<T> Unpin for Delay<T> {}
impl<T> Future for Delay<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if self.0 > 0 {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.1.take().expect("polled after completion"))
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    Run(u32, usize),
    Call(u32),
}

#[derive(Debug)]
pub struct World {
    pub log: RefCell<Vec<Ev>>,
    pub pend: Cell<u64>,
    pub serial: Cell<u64>,
}
impl World {
    pub fn new(pend: u64) -> Rc<World> {
        Rc::new(World { log: RefCell::new(vec![]), pend: Cell::new(pend), serial: Cell::new(0) })
    }
    pub fn delay(&self) -> usize {
        let p = self.pend.get();
        if p == 0 {
            return 0;
        }
        let mut r = Rng(p);
        let n = r.next();
        self.pend.set(n | 1);
        (n >> 8) as usize % 3
    }
    pub fn push(&self, e: Ev) {
        self.log.borrow_mut().push(e)
    }
}

/// a sequence that is only a position; every advance and rewind may suspend
#[derive(Clone)]
pub struct Pos {
    pub w: Rc<World>,
    pub pos: usize,
}
impl std::fmt::Debug for Pos {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "@{}", self.pos)
    }
}
impl PartialEq for Pos {
    fn eq(&self, o: &Pos) -> bool {
        self.pos == o.pos && Rc::ptr_eq(&self.w, &o.w)
    }
}
pub struct NoSegs;
impl SegmentStream for NoSegs {
    type Segment = [u8];
    type Length = usize;
    type Next<'a> = std::future::Ready<Option<&'a [u8]>>;
    fn next(&mut self, _: usize) -> Self::Next<'_> {
        std::future::ready(None)
    }
}
impl Sequence for Pos {
    type Length = usize;
    type Segment = [u8];
    type Segments<'a> = NoSegs;
    type Advance = Delay<Pos>;
    fn segments(&mut self) -> NoSegs {
        NoSegs
    }
    fn advance(mut self, delta: usize) -> Delay<Pos> {
        self.pos += delta;
        Delay(self.w.delay(), Some(self))
    }
}
impl RewindSequence for Pos {
    type Anchor = usize;
    type Rewind = Delay<Pos>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, anchor: usize) -> Delay<Pos> {
        self.pos = anchor;
        Delay(self.w.delay(), Some(self))
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Val(pub u32, pub usize, pub u64);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Er { pub id: u32, pub pos: usize, pub n: u64, pub fatal: bool }
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.fatal
    }
}
/// an error made from another one by a conversion
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Conv(pub Er);
impl From<Er> for Conv {
    fn from(e: Er) -> Conv {
        Conv(e)
    }
}
impl ParseError for Conv {
    fn should_terminate(&self) -> bool {
        self.0.fatal
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out { Ok, Miss, Fatal }
#[derive(Debug, Clone)]
pub struct Beh { pub eat: usize, pub out: Out }

/// what a scripted parser does, by position; positions beyond the table miss
#[derive(Debug, Clone)]
pub struct Table { pub id: u32, pub beh: Vec<Beh> }
impl Table {
    pub fn random(rng: &mut Rng, id: u32, len: usize, min_eat: usize, ok: usize, fatal: usize) -> Table {
        let beh = (0..=len)
            .map(|_| {
                let x = rng.below(10);
                let out = if x < ok { Out::Ok } else if x < ok + fatal { Out::Fatal } else { Out::Miss };
                let eat = if out == Out::Ok { min_eat + rng.below(3 - min_eat) } else { rng.below(3) };
                Beh { eat, out }
            })
            .collect();
        Table { id, beh }
    }
    pub fn at(&self, pos: usize) -> Beh {
        self.beh.get(pos).cloned().unwrap_or(Beh { eat: 1, out: Out::Miss })
    }
}

pub type PR<O, E> = Result<(O, usize), (E, usize)>;

/// the reference interpreter of a scripted parser
pub struct Rf<'a> { pub log: &'a mut Vec<Ev>, pub serial: &'a mut u64 }
impl Rf<'_> {
    pub fn run(&mut self, t: &Table, pos: usize) -> PR<Val, Er> {
        self.log.push(Ev::Run(t.id, pos));
        let n = *self.serial;
        *self.serial += 1;
        let b = t.at(pos);
        match b.out {
            Out::Ok => Ok((Val(t.id, pos, n), pos + b.eat)),
            o => Err((Er { id: t.id, pos, n, fatal: o == Out::Fatal }, pos + b.eat)),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scr { pub t: Rc<Table> }
impl Scr {
    pub fn new(t: &Table) -> Scr {
        Scr { t: Rc::new(t.clone()) }
    }
    async fn go(&self, input: Pos) -> ParseResult<Pos, Val, Er> {
        let w = input.w.clone();
        let pos = input.pos;
        w.push(Ev::Run(self.t.id, pos));
        let n = w.serial.get();
        w.serial.set(n + 1);
        let b = self.t.at(pos);
        Delay(w.delay(), Some(())).await;
        let rest = input.advance(b.eat).await;
        match b.out {
            Out::Ok => Ok((Val(self.t.id, pos, n), rest)),
            o => Err((Er { id: self.t.id, pos, n, fatal: o == Out::Fatal }, rest.into())),
        }
    }
}
impl ParserOnce<Pos> for Scr {
    type Output = Val;
    type Error = Er;
    async fn parse_once(self, input: Pos) -> ParserResult<Pos, Self> {
        self.go(input).await
    }
}
impl Parser<Pos> for Scr {
    async fn parse(&self, input: Pos) -> ParserResult<Pos, Self> {
        self.go(input).await
    }
}

/// a parser result with bare positions
pub fn bare<O, E>(r: ParseResult<Pos, O, E>) -> PR<O, E> {
    match r {
        Ok((v, s)) => Ok((v, s.pos)),
        Err((e, l)) => Err((e, unsafe { l.unwrap() }.pos)),
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

// ---------------------------------------------------------------- scripted iterations

#[derive(Debug, Clone, PartialEq)]
pub enum Step { Some, None, Miss, Fatal }
/// what an iteration does at its k-th step, wherever it is
#[derive(Debug, Clone)]
pub struct Steps { pub id: u32, pub steps: Vec<(Step, usize)> }
impl Steps {
    pub fn random(rng: &mut Rng, id: u32, len: usize) -> Steps {
        let mut steps: Vec<(Step, usize)> = vec![];
        for _ in 0..len {
            // long scripts go on for long
            let s = match rng.below(if len > 20 { 2 * len } else { 12 }) {
                0 => Step::None,
                1 => Step::Miss,
                2 => Step::Fatal,
                _ => Step::Some,
            };
            steps.push((s, rng.below(3)));
        }
        Steps { id, steps }
    }
    pub fn at(&self, k: usize) -> (Step, usize) {
        self.steps.get(k).cloned().unwrap_or((Step::None, 1))
    }
}
#[derive(Clone, Debug)]
pub struct Iter { pub s: Rc<Steps> }
impl Iter {
    pub fn new(s: &Steps) -> Iter {
        Iter { s: Rc::new(s.clone()) }
    }
}
pub struct IterSt { s: Rc<Steps>, k: usize }
impl IterativeParserState<Pos> for IterSt {
    type Output = Val;
    type Error = Er;
    async fn parse_next(&mut self, input: Pos) -> ParseResult<Pos, Option<Val>, Er> {
        let w = input.w.clone();
        let pos = input.pos;
        w.push(Ev::Run(self.s.id, pos));
        let n = w.serial.get();
        w.serial.set(n + 1);
        let (st, eat) = self.s.at(self.k);
        self.k += 1;
        Delay(w.delay(), Some(())).await;
        let rest = input.advance(eat).await;
        match st {
            Step::Some => Ok((Some(Val(self.s.id, pos, n)), rest)),
            Step::None => Ok((None, rest)),
            s => Err((Er { id: self.s.id, pos, n, fatal: s == Step::Fatal }, rest.into())),
        }
    }
}
impl IterativeParserOnce<Pos> for Iter {
    type Output = Val;
    type Error = Er;
    type StateOnce = IterSt;
    fn parse_iterative_once(self) -> IterSt {
        IterSt { s: self.s, k: 0 }
    }
}
impl IterativeParser<Pos> for Iter {
    type State<'a> = IterSt;
    fn parse_iterative(&self) -> IterSt {
        IterSt { s: self.s.clone(), k: 0 }
    }
}
/// the reference interpreter of a scripted iteration
pub struct RefIter<'a> { pub s: &'a Steps, pub k: usize }
impl RefIter<'_> {
    pub fn step(&mut self, r: &mut Rf, pos: usize) -> PR<Option<Val>, Er> {
        r.log.push(Ev::Run(self.s.id, pos));
        let n = *r.serial;
        *r.serial += 1;
        let (st, eat) = self.s.at(self.k);
        self.k += 1;
        match st {
            Step::Some => Ok((Some(Val(self.s.id, pos, n)), pos + eat)),
            Step::None => Ok((None, pos + eat)),
            s => Err((Er { id: self.s.id, pos, n, fatal: s == Step::Fatal }, pos + eat)),
        }
    }
}
