//! C01 to C06: combinators over scripted parsers against a reference interpreter.
use engine::*;
use parcom_core::*;
use parcom_parsers::*;
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use std::fmt::Debug;
use std::rc::Rc;

type Want = Result<(String, usize), (String, bool, usize)>;
fn dbg<T: Debug>(t: &T) -> String {
    format!("{t:?}")
}
fn err(e: Er, pos: usize) -> Want {
    Err((dbg(&e), e.fatal, pos))
}

struct Case {
    tables: Vec<Table>,
    runs: Vec<usize>,
    pend: u64,
}
fn case(rng: &mut Rng, n: usize, min_eat: usize, ok: usize, fatal: usize) -> Case {
    let len = 1 + rng.below(8);
    let tables = (0..n).map(|i| Table::random(rng, i as u32, len, min_eat, ok, fatal)).collect();
    let runs = (0..1 + rng.below(3)).map(|_| rng.below(4)).collect();
    Case { tables, runs, pend: if rng.chance(1, 2) { rng.next() | 1 } else { 0 } }
}
/// runs the parser by reference for all but the last position and consumes it for the last one
fn drive<P>(c: &Case, mode: Mode, make: impl Fn(&Rc<World>) -> P, want: impl Fn(&mut Rf, usize) -> Want) -> R
where
    P: Parser<Pos>,
    P::Output: Debug,
    P::Error: Debug + ParseError,
{
    let w = World::new(c.pend);
    let mut p = Some(make(&w));
    let mut serial = 0;
    for (i, &pos) in c.runs.iter().enumerate() {
        w.log.borrow_mut().clear();
        let input = Pos { w: w.clone(), pos };
        let last = i + 1 == c.runs.len();
        let got = if last { block_on(p.take().unwrap().parse_once(input)) } else { block_on(p.as_ref().unwrap().parse(input)) };
        let got: Want = match got {
            Ok((v, r)) => Ok((dbg(&v), r.pos)),
            Err((e, l)) => Err((dbg(&e), e.should_terminate(), unsafe { l.unwrap() }.pos)),
        };
        let mut log = vec![];
        let exp = want(&mut Rf { log: &mut log, serial: &mut serial }, pos);
        if mode == Mode::Fatal && !matches!(exp, Err((_, true, _))) {
            serial = w.serial.get();
            continue;
        }
        let how = if last { "consumed" } else { "by reference" };
        trace(&(pos, &exp, &log));
        let tabs = || format!("{:?}", c.tables);
        if got != exp {
            return Err(format!("run {i} at {pos} ({how}): got {got:?}, expected {exp:?}; scripts {}", tabs()));
        }
        if *w.log.borrow() != log {
            return Err(format!("run {i} at {pos} ({how}): calls {:?}, expected {log:?}; scripts {}", w.log.borrow(), tabs()));
        }
    }
    Ok(())
}

fn or(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 2, 0, 4, 2);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::or(Scr::new(&t[0]), Scr::new(&t[1])),
        |r, pos| {
            let e0 = match r.run(&t[0], pos) {
                Ok((v, p)) => return Ok((dbg(&Either::<Val, Val>::First(v)), p)),
                Err((e, p)) if e.fatal => return Err((dbg(&EitherBoth::<Er, Er>::First(e)), true, p)),
                Err((e, _)) => e,
            };
            match r.run(&t[1], pos) {
                Ok((v, p)) => Ok((dbg(&Either::<Val, Val>::Last(v)), p)),
                Err((e, p)) if e.fatal => Err((dbg(&EitherBoth::<Er, Er>::Last(e)), true, p)),
                Err((e, p)) => Err((dbg(&EitherBoth::<Er, Er>::Both(e0, e)), false, p)),
            }
        },
    )
}
/// nested choices: three alternatives
fn or3(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 3, 0, 3, 1);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::or(ParserExtension::<Pos>::or(Scr::new(&t[0]), Scr::new(&t[1])), Scr::new(&t[2])),
        |r, pos| {
            type E0 = EitherBoth<Er, Er>;
            type O0 = Either<Val, Val>;
            type E1 = EitherBoth<E0, Er>;
            type O1 = Either<O0, Val>;
            let e0 = match r.run(&t[0], pos) {
                Ok((v, p)) => return Ok((dbg(&O1::First(O0::First(v))), p)),
                Err((e, p)) if e.fatal => return Err((dbg(&E1::First(E0::First(e))), true, p)),
                Err((e, _)) => e,
            };
            let e1 = match r.run(&t[1], pos) {
                Ok((v, p)) => return Ok((dbg(&O1::First(O0::Last(v))), p)),
                Err((e, p)) if e.fatal => return Err((dbg(&E1::First(E0::Last(e))), true, p)),
                Err((e, _)) => e,
            };
            match r.run(&t[2], pos) {
                Ok((v, p)) => Ok((dbg(&O1::Last(v)), p)),
                Err((e, p)) if e.fatal => Err((dbg(&E1::Last(e)), true, p)),
                Err((e, p)) => Err((dbg(&E1::Both(E0::Both(e0, e1), e)), false, p)),
            }
        },
    )
}
fn optional(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 4, 2);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::optional(Scr::new(&t[0])),
        |r, pos| match r.run(&t[0], pos) {
            Ok((v, p)) => Ok((dbg(&Ok::<Val, Er>(v)), p)),
            Err((e, p)) if e.fatal => err(e, p),
            Err((e, _)) => Ok((dbg(&Err::<Val, Er>(e)), pos)),
        },
    )
}
fn repeat(rng: &mut Rng, mode: Mode) -> R {
    let mut c = case(rng, 1, 1, 8, 1);
    let named = rng.near(60, 9000);
    if named.is_some() || rng.chance(1, 20) {
        let n = named.map(|n| 2 * n + 2).unwrap_or_else(|| 20 + rng.few(60).min(4000));
        c.tables = vec![Table::random(rng, 0, n, 1, 10, 0)];
        if rng.chance(1, 2) {
            c.tables[0].beh[n].out = Out::Fatal;
        }
    }
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::repeat(Scr::new(&t[0])),
        |r, pos| {
            let mut v = vec![];
            let mut at = pos;
            loop {
                match r.run(&t[0], at) {
                    Ok((x, p)) => {
                        v.push(x);
                        at = p;
                    }
                    Err((e, p)) if e.fatal => return err(e, p),
                    Err((e, _)) => return Ok((dbg(&(v, e)), at)),
                }
            }
        },
    )
}
fn join(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 2, 0, 6, 2);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::join(Scr::new(&t[0]), Scr::new(&t[1])),
        |r, pos| {
            type E = Either<Er, Er>;
            let (v0, p) = match r.run(&t[0], pos) {
                Ok(x) => x,
                Err((e, p)) => {
                    let f = e.fatal;
                    return Err((dbg(&E::First(e)), f, p));
                }
            };
            match r.run(&t[1], p) {
                Ok((v1, p)) => Ok((dbg(&(v0, v1)), p)),
                Err((e, p)) => {
                    let f = e.fatal;
                    Err((dbg(&E::Last(e)), f, p))
                }
            }
        },
    )
}
#[derive(Debug)]
struct Mapped(Val);
fn map(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 5, 2);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |w| {
            let w = w.clone();
            ParserExtension::<Pos>::map(Scr::new(&t[0]), move |v: Val| {
                w.push(Ev::Call(7));
                Mapped(v)
            })
        },
        |r, pos| match r.run(&t[0], pos) {
            Ok((v, p)) => {
                r.log.push(Ev::Call(7));
                Ok((dbg(&Mapped(v)), p))
            }
            Err((e, p)) => err(e, p),
        },
    )
}
fn map_err(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 4, 3);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |w| {
            let w = w.clone();
            ParserExtension::<Pos>::map_err(Scr::new(&t[0]), move |e: Er| {
                w.push(Ev::Call(8));
                Conv(e)
            })
        },
        |r, pos| match r.run(&t[0], pos) {
            Ok((v, p)) => Ok((dbg(&v), p)),
            Err((e, p)) => {
                r.log.push(Ev::Call(8));
                let f = e.fatal;
                Err((dbg(&Conv(e)), f, p))
            }
        },
    )
}
fn and_then(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 7, 1);
    let t = c.tables.clone();
    let k = rng.below(4);
    let f = move |v: &Val| (v.1 + k) % 4;
    drive(
        &c,
        mode,
        |w| {
            let w = w.clone();
            ParserExtension::<Pos>::and_then(Scr::new(&t[0]), move |v: Val| {
                w.push(Ev::Call(9));
                match f(&v) {
                    0 | 1 => Ok(Mapped(v)),
                    x => Err(Conv(Er { id: 99, pos: v.1, n: v.2, fatal: x == 3 })),
                }
            })
        },
        |r, pos| match r.run(&t[0], pos) {
            Ok((v, p)) => {
                r.log.push(Ev::Call(9));
                match f(&v) {
                    0 | 1 => Ok((dbg(&Mapped(v)), p)),
                    x => Err((dbg(&Conv(Er { id: 99, pos: v.1, n: v.2, fatal: x == 3 })), x == 3, p)),
                }
            }
            Err((e, p)) => {
                let f = e.fatal;
                Err((dbg(&Conv(e)), f, p))
            }
        },
    )
}
// two-sided values and errors, by the parity of their serial number
#[derive(Debug, Clone)]
struct Side(Val);
#[derive(Debug, Clone)]
struct ErSide(Er);
impl ParseError for ErSide {
    fn should_terminate(&self) -> bool {
        self.0.fatal
    }
}
#[derive(Debug)]
struct Uni(u8, Val);
impl From<Val> for Uni {
    fn from(v: Val) -> Uni {
        Uni(0, v)
    }
}
impl From<Side> for Uni {
    fn from(v: Side) -> Uni {
        Uni(1, v.0)
    }
}
#[derive(Debug)]
struct UniE(u8, Er);
impl From<Er> for UniE {
    fn from(v: Er) -> UniE {
        UniE(0, v)
    }
}
impl From<ErSide> for UniE {
    fn from(v: ErSide) -> UniE {
        UniE(1, v.0)
    }
}
impl ParseError for UniE {
    fn should_terminate(&self) -> bool {
        self.1.fatal
    }
}
struct TwoV(Scr);
impl TwoV {
    fn conv(r: ParseResult<Pos, Val, Er>) -> ParseResult<Pos, Either<Val, Side>, Er> {
        r.map(|(v, p)| (if v.2 % 2 == 0 { Either::First(v) } else { Either::Last(Side(v)) }, p))
    }
}
impl ParserOnce<Pos> for TwoV {
    type Output = Either<Val, Side>;
    type Error = Er;
    async fn parse_once(self, input: Pos) -> ParserResult<Pos, Self> {
        Self::conv(self.0.parse_once(input).await)
    }
}
impl Parser<Pos> for TwoV {
    async fn parse(&self, input: Pos) -> ParserResult<Pos, Self> {
        Self::conv(self.0.parse(input).await)
    }
}
struct TwoE(Scr);
impl TwoE {
    fn conv(r: ParseResult<Pos, Val, Er>) -> ParseResult<Pos, Val, Either<Er, ErSide>> {
        r.map_err(|(v, p)| (if v.n % 2 == 0 { Either::First(v) } else { Either::Last(ErSide(v)) }, p))
    }
}
impl ParserOnce<Pos> for TwoE {
    type Output = Val;
    type Error = Either<Er, ErSide>;
    async fn parse_once(self, input: Pos) -> ParserResult<Pos, Self> {
        Self::conv(self.0.parse_once(input).await)
    }
}
impl Parser<Pos> for TwoE {
    async fn parse(&self, input: Pos) -> ParserResult<Pos, Self> {
        Self::conv(self.0.parse(input).await)
    }
}
fn unify(rng: &mut Rng, mode: Mode) -> R {
    let mut c = case(rng, 1, 0, 6, 2);
    c.runs.extend([0, 1]);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::unify::<Val, Side, Uni>(TwoV(Scr::new(&t[0]))),
        |r, pos| match r.run(&t[0], pos) {
            Ok((v, p)) => Ok((dbg(&Uni((v.2 % 2) as u8, v)), p)),
            Err((e, p)) => err(e, p),
        },
    )
}
fn unify_err(rng: &mut Rng, mode: Mode) -> R {
    let mut c = case(rng, 1, 0, 3, 4);
    c.runs.extend([0, 1]);
    let t = c.tables.clone();
    drive(
        &c,
        mode,
        |_| ParserExtension::<Pos>::unify_err::<Er, ErSide, UniE>(TwoE(Scr::new(&t[0]))),
        |r, pos| match r.run(&t[0], pos) {
            Ok((v, p)) => Ok((dbg(&v), p)),
            Err((e, p)) => {
                let f = e.fatal;
                Err((dbg(&UniE((e.n % 2) as u8, e)), f, p))
            }
        },
    )
}
fn plain(t: Table) -> impl Fn(&mut Rf, usize) -> Want {
    move |r, pos| match r.run(&t, pos) {
        Ok((v, p)) => Ok((dbg(&v), p)),
        Err((e, p)) => err(e, p),
    }
}
fn boxed(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 5, 2);
    let t = c.tables.clone();
    drive(&c, mode, |_| ParserExtension::<Pos>::boxed(Scr::new(&t[0])), plain(t[0].clone()))
}
fn by_ref(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 5, 2);
    let t = c.tables.clone();
    let s = Scr::new(&t[0]);
    drive(&c, mode, |_| ParserExtension::<Pos>::as_ref(&s), plain(t[0].clone()))
}
/// a function is a parser
fn function(rng: &mut Rng, mode: Mode) -> R {
    let c = case(rng, 1, 0, 5, 2);
    let t = c.tables.clone();
    let s = Scr::new(&t[0]);
    drive(
        &c,
        mode,
        |_| {
            let s = s.clone();
            move |input: Pos| {
                let s = s.clone();
                async move { s.parse_once(input).await }
            }
        },
        plain(t[0].clone()),
    )
}

fn wrappers(rng: &mut Rng, _: Mode) -> R {
    let e = |f: bool| Er { id: 0, pos: 0, n: 0, fatal: f };
    for f in [false, true] {
        same("Either::First", &Either::<Er, Er>::First(e(f)).should_terminate(), &f)?;
        same("Either::Last", &Either::<Er, Er>::Last(e(f)).should_terminate(), &f)?;
        same("EitherBoth::First", &EitherBoth::<Er, Er>::First(e(f)).should_terminate(), &f)?;
        same("EitherBoth::Last", &EitherBoth::<Er, Er>::Last(e(f)).should_terminate(), &f)?;
        for g in [false, true] {
            same("EitherBoth::Both", &EitherBoth::Both(e(f), e(g)).should_terminate(), &(f || g))?;
        }
        same("&", &<&Er as ParseError>::should_terminate(&&e(f)), &f)?;
        same("Some", &Some(e(f)).should_terminate(), &f)?;
        same("Fatal", &Fatal(e(f)).should_terminate(), &true)?;
        same("Miss", &Miss(e(f)).should_terminate(), &false)?;
    }
    same("None", &None::<Er>.should_terminate(), &false)?;
    trace(&"error wrappers");
    // nested
    let f = rng.chance(1, 2);
    let g = rng.chance(1, 2);
    same("nested", &Either::<EitherBoth<Option<Er>, Er>, Miss<Er>>::First(EitherBoth::Both(Some(e(f)), e(g))).should_terminate(), &(f || g))
}

/// taking a side of a two-sided value
fn sides(rng: &mut Rng, _: Mode) -> R {
    let v = Val(rng.below(9) as u32, rng.below(90), rng.next());
    let text = rng.next().to_string();
    trace(&(&v, &text));
    type E = Either<Val, String>;
    same("Either::First unwrap_first", &E::First(v.clone()).unwrap_first(), &v)?;
    same("Either::Last unwrap_last", &E::Last(text.clone()).unwrap_last(), &text)?;
    same("Either::First always_first", &Either::<Val, Never>::First(v.clone()).always_first(), &v)?;
    same("Either::Last always_last", &Either::<Never, Val>::Last(v.clone()).always_last(), &v)?;
    same("EitherBoth::First always_first", &EitherBoth::<Val, Never>::First(v.clone()).always_first(), &v)?;
    same("EitherBoth::Last always_last", &EitherBoth::<Never, Val>::Last(v.clone()).always_last(), &v)?;
    for i in 0..2 {
        let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match i {
            0 => drop(E::First(v.clone()).unwrap_last()),
            _ => drop(E::Last(text.clone()).unwrap_first()),
        }));
        if refused.is_ok() {
            return Err("unwrapping the other side of an Either gave a value".into());
        }
    }
    Ok(())
}
fn main() {
    engine::main(&[
        fam("C01", "or", or),
        fam("C01", "or3", or3),
        fatal("C02", "or", or),
        fatal("C02", "or3", or3),
        fatal("C02", "optional", optional),
        fatal("C02", "repeat", repeat),
        fatal("C02", "join", join),
        fatal("C02", "map", map),
        fatal("C02", "map_err", map_err),
        fatal("C02", "and_then", and_then),
        fatal("C02", "unify", unify),
        fatal("C02", "unify_err", unify_err),
        fatal("C02", "boxed", boxed),
        fatal("C02", "ref", by_ref),
        fam("C02", "wrappers", wrappers),
        fam("C03", "optional", optional),
        fam("C04", "repeat", repeat),
        fam("C05", "join", join),
        fam("C06", "map", map),
        fam("C06", "map_err", map_err),
        fam("C06", "and_then", and_then),
        fam("C06", "unify", unify),
        fam("C06", "unify_err", unify_err),
        fam("C06", "boxed", boxed),
        fam("C06", "ref", by_ref),
        fam("C06", "function", function),
        slow("C06", "sides", 1, sides),
    ]);
}
