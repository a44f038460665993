//! C02 to C04 (iterative), C13, C14: iterations against a reference interpreter.
use engine::*;
use parcom_core::*;
use parcom_parsers::*;
use std::fmt::Debug;
use std::rc::Rc;

type Want = Result<(Option<String>, usize), (String, bool, usize)>;
fn dbg<T: Debug>(t: &T) -> String {
    format!("{t:?}")
}
fn err(e: Er, pos: usize) -> Want {
    Err((dbg(&e), e.fatal, pos))
}
type Stepper<'a> = Box<dyn FnMut(&mut Rf, usize) -> Want + 'a>;

fn steps<I>(w: &Rc<World>, mut st: I, start: usize, n: usize, mode: Mode, serial: &mut u64, want: &mut Stepper, how: &str, stop: bool) -> R
where
    I: IterativeParserState<Pos>,
    I::Output: Debug,
    I::Error: Debug,
{
    let mut pos = start;
    for k in 0..n {
        w.log.borrow_mut().clear();
        let input = Pos { w: w.clone(), pos };
        let got: Want = match block_on(st.parse_next(input)) {
            Ok((v, r)) => Ok((v.map(|v| dbg(&v)), r.pos)),
            Err((e, l)) => Err((dbg(&e), e.should_terminate(), unsafe { l.unwrap() }.pos)),
        };
        let mut log = vec![];
        let exp = want(&mut Rf { log: &mut log, serial }, pos);
        if mode == Mode::All || matches!(exp, Err((_, true, _))) {
            trace(&(k, pos, &exp, &log));
        }
        let fatal = matches!(exp, Err((_, true, _)));
        if mode == Mode::All || fatal {
            if got != exp {
                return Err(format!("step {k} at {pos} ({how}): got {got:?}, expected {exp:?}"));
            }
            if *w.log.borrow() != log {
                return Err(format!("step {k} at {pos} ({how}): calls {:?}, expected {log:?}", w.log.borrow()));
            }
        } else if got != exp || *w.log.borrow() != log {
            return Ok(());
        }
        match exp {
            Ok((None, _)) | Err(_) if stop => return Ok(()),
            Ok((_, p)) => pos = p,
            Err((_, _, p)) if k % 2 == 0 => pos = p,
            Err(_) => return Ok(()),
        }
    }
    Ok(())
}
fn drive<'a, P>(rng: &mut Rng, mode: Mode, info: &str, make: impl Fn(&Rc<World>) -> P, want: impl Fn() -> Stepper<'a>) -> R

where
    P: IterativeParser<Pos>,
    P::Output: Debug,
    P::Error: Debug,
{
    // nothing is promised about the steps after the end of a repetition
    let stop = info.starts_with("repeat");
    let w = World::new(if rng.chance(1, 2) { rng.next() | 1 } else { 0 });
    let mut serial = 0;
    let p = make(&w);
    let tag = |r: R| r.map_err(|m| format!("{m}; {info}"));
    for i in 0..rng.below(3) {
        let (s, n) = (rng.below(3), rng.near(8, 70000).map(|n| n + 4).unwrap_or_else(|| 1 + rng.few(9)));
        tag(steps(&w, p.parse_iterative(), s, n, mode, &mut serial, &mut want(), &format!("iteration {i} by reference"), stop))?;
        serial = w.serial.get();
    }
    if rng.chance(1, 3) {
        let (s, n) = (rng.below(3), rng.near(8, 70000).map(|n| n + 4).unwrap_or_else(|| 1 + rng.few(9)));
        tag(steps(&w, (&p).parse_iterative_once(), s, n, mode, &mut serial, &mut want(), "iteration of a consumed reference", stop))?;
        serial = w.serial.get();
    }
    let (s, n) = (rng.below(3), rng.near(8, 70000).map(|n| n + 4).unwrap_or_else(|| 1 + rng.few(9)));
    tag(steps(&w, p.parse_iterative_once(), s, n, mode, &mut serial, &mut want(), "consumed", stop))
}

fn optional(rng: &mut Rng, mode: Mode) -> R {
    let t = Table::random(rng, 0, 6, 0, 4, 3);
    drive(
        rng,
        mode,
        &dbg(&t),
        |_| ParserExtension::<Pos>::optional(Scr::new(&t)),
        || {
            let mut used = false;
            let t = &t;
            Box::new(move |r, pos| {
                if used {
                    return Ok((None, pos));
                }
                used = true;
                match r.run(t, pos) {
                    Ok((v, p)) => Ok((Some(dbg(&v)), p)),
                    Err((e, p)) if e.fatal => err(e, p),
                    Err(_) => Ok((None, pos)),
                }
            })
        },
    )
}
fn repeat(rng: &mut Rng, mode: Mode) -> R {
    let n = 8 + if rng.chance(1, 8) { rng.few(30) } else { 0 };
    let t = if n > 20 { Table::random(rng, 0, n, 1, 10, 0) } else { Table::random(rng, 0, n, 0, 6, 2) };
    drive(
        rng,
        mode,
        &format!("repeat {t:?}"),
        |_| ParserExtension::<Pos>::repeat(Scr::new(&t)),
        || {
            let t = &t;
            Box::new(move |r, pos| match r.run(t, pos) {
                Ok((v, p)) => Ok((Some(dbg(&v)), p)),
                Err((e, p)) if e.fatal => err(e, p),
                Err(_) => Ok((None, pos)),
            })
        },
    )
}
#[derive(Debug)]
struct Mapped(Val);
fn script(rng: &mut Rng) -> Steps {
    let n = 1 + rng.few(10);
    Steps::random(rng, 0, n)
}
fn map_each(rng: &mut Rng, mode: Mode) -> R {
    let s = script(rng);
    drive(
        rng,
        mode,
        &dbg(&s),
        |w| {
            let w = w.clone();
            IterativeParserExtension::<Pos>::map_each(Iter::new(&s), move |v| {
                w.push(Ev::Call(1));
                Mapped(v)
            })
        },
        || {
            let mut it = RefIter { s: &s, k: 0 };
            Box::new(move |r, pos| match it.step(r, pos) {
                Ok((Some(v), p)) => {
                    r.log.push(Ev::Call(1));
                    Ok((Some(dbg(&Mapped(v))), p))
                }
                Ok((None, p)) => Ok((None, p)),
                Err((e, p)) => err(e, p),
            })
        },
    )
}
fn try_map_each(rng: &mut Rng, mode: Mode) -> R {
    let s = script(rng);
    let k = rng.below(4);
    let f = move |v: &Val| (v.1 + k) % 4;
    drive(
        rng,
        mode,
        &dbg(&s),
        |w| {
            let w = w.clone();
            IterativeParserExtension::<Pos>::try_map_each(Iter::new(&s), move |v: Val| {
                w.push(Ev::Call(1));
                match f(&v) {
                    0 | 1 => Ok(Mapped(v)),
                    x => Err(Conv(Er { id: 99, pos: v.1, n: v.2, fatal: x == 3 })),
                }
            })
        },
        || {
            let mut it = RefIter { s: &s, k: 0 };
            Box::new(move |r, pos| match it.step(r, pos) {
                Ok((Some(v), p)) => {
                    r.log.push(Ev::Call(1));
                    match f(&v) {
                        0 | 1 => Ok((Some(dbg(&Mapped(v))), p)),
                        3 => Err((dbg(&Conv(Er { id: 99, pos: v.1, n: v.2, fatal: true })), true, p)),
                        _ => Ok((None, p)),
                    }
                }
                Ok((None, p)) => Ok((None, p)),
                Err((e, p)) => {
                    let f = e.fatal;
                    Err((dbg(&Conv(e)), f, p))
                }
            })
        },
    )
}
fn map_while(rng: &mut Rng, mode: Mode) -> R {
    let s = script(rng);
    let k = rng.below(3);
    let f = move |v: &Val| (v.1 + k) % 3 != 0;
    drive(
        rng,
        mode,
        &dbg(&s),
        |w| {
            let w = w.clone();
            IterativeParserExtension::<Pos>::map_while(Iter::new(&s), move |v: Val| {
                w.push(Ev::Call(1));
                if f(&v) {
                    Some(Mapped(v))
                } else {
                    None
                }
            })
        },
        || {
            let mut it = RefIter { s: &s, k: 0 };
            Box::new(move |r, pos| match it.step(r, pos) {
                Ok((Some(v), p)) => {
                    r.log.push(Ev::Call(1));
                    Ok((if f(&v) { Some(dbg(&Mapped(v))) } else { None }, p))
                }
                Ok((None, p)) => Ok((None, p)),
                Err((e, p)) => err(e, p),
            })
        },
    )
}
fn scan(rng: &mut Rng, mode: Mode) -> R {
    let s = script(rng);
    let init: Vec<usize> = (0..rng.below(3)).collect();
    drive(
        rng,
        mode,
        &dbg(&s),
        |w| {
            let w = w.clone();
            IterativeParserExtension::<Pos>::scan(Iter::new(&s), init.clone(), move |st: &mut Vec<usize>, v: Val| {
                w.push(Ev::Call(1));
                st.push(v.1);
                (st.clone(), v)
            })
        },
        || {
            let mut it = RefIter { s: &s, k: 0 };
            let mut st = init.clone();
            Box::new(move |r, pos| match it.step(r, pos) {
                Ok((Some(v), p)) => {
                    r.log.push(Ev::Call(1));
                    st.push(v.1);
                    Ok((Some(dbg(&(st.clone(), v))), p))
                }
                Ok((None, p)) => Ok((None, p)),
                Err((e, p)) => err(e, p),
            })
        },
    )
}
fn take(rng: &mut Rng, mode: Mode) -> R {
    let named = rng.near(20, 70000);
    let s = match named {
        Some(n) => Steps::random(rng, 0, n + 3),
        None => script(rng),
    };
    let n = match named.map(|n| n + rng.below(3)) {
        Some(n) => n,
        None => match rng.below(12) {
        0 => usize::MAX,
        _ => rng.few(6),
        },
    };
    drive(
        rng,
        mode,
        &format!("take({n}), {s:?}"),
        |_| IterativeParserExtension::<Pos>::take(Iter::new(&s), n),
        || {
            let mut it = RefIter { s: &s, k: 0 };
            let mut left = n;
            Box::new(move |r, pos| {
                if left == 0 {
                    return Ok((None, pos));
                }
                match it.step(r, pos) {
                    Ok((Some(v), p)) => {
                        left -= 1;
                        Ok((Some(dbg(&v)), p))
                    }
                    Ok((None, p)) => Ok((None, p)),
                    Err((e, p)) => err(e, p),
                }
            })
        },
    )
}
/// adaptors on top of each other
fn stacked(rng: &mut Rng, mode: Mode) -> R {
    let s = script(rng);
    let n = rng.few(6);
    drive(
        rng,
        mode,
        &format!("{n}, {s:?}"),
        |_| {
            let a = IterativeParserExtension::<Pos>::map_while(Iter::new(&s), |v: Val| if v.1 % 4 == 3 { None } else { Some(v.1) });
            let b = IterativeParserExtension::<Pos>::take(a, n);
            IterativeParserExtension::<Pos>::scan(b, 0usize, |st: &mut usize, x: usize| {
                *st = st.wrapping_mul(31).wrapping_add(x + 1);
                *st
            })
        },
        || {
            let mut it = RefIter { s: &s, k: 0 };
            let mut left = n;
            let mut st = 0usize;
            Box::new(move |r, pos| {
                if left == 0 {
                    return Ok((None, pos));
                }
                match it.step(r, pos) {
                    Ok((Some(v), p)) if v.1 % 4 != 3 => {
                        left -= 1;
                        st = st.wrapping_mul(31).wrapping_add(v.1 + 1);
                        Ok((Some(dbg(&st)), p))
                    }
                    Ok((_, p)) => Ok((None, p)),
                    Err((e, p)) => err(e, p),
                }
            })
        },
    )
}

#[derive(Debug, Default)]
struct Col(Vec<Val>);
impl Extend<Val> for Col {
    fn extend<I: IntoIterator<Item = Val>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
type PWant = Result<(String, usize), (String, usize)>;
fn parsers<P>(rng: &mut Rng, info: &str, make: impl Fn(&Rc<World>) -> P, want: impl Fn(&mut Rf, usize) -> PWant) -> R
where
    P: Parser<Pos>,
    P::Output: Debug,
    P::Error: Debug,
{
    let w = World::new(if rng.chance(1, 2) { rng.next() | 1 } else { 0 });
    let mut p = Some(make(&w));
    let mut serial = 0;
    let n = 1 + rng.below(3);
    for i in 0..n {
        w.log.borrow_mut().clear();
        let pos = rng.below(4);
        let input = Pos { w: w.clone(), pos };
        let got = if i + 1 == n { block_on(p.take().unwrap().parse_once(input)) } else { block_on(p.as_ref().unwrap().parse(input)) };
        let got: PWant = match got {
            Ok((v, r)) => Ok((dbg(&v), r.pos)),
            Err((e, l)) => Err((dbg(&e), unsafe { l.unwrap() }.pos)),
        };
        let mut log = vec![];
        let exp = want(&mut Rf { log: &mut log, serial: &mut serial }, pos);
        trace(&(pos, &exp, &log));
        if got != exp {
            return Err(format!("run {i} of {n} at {pos}: got {got:?}, expected {exp:?}; {info}"));
        }
        if *w.log.borrow() != log {
            return Err(format!("run {i} of {n} at {pos}: calls {:?}, expected {log:?}; {info}", w.log.borrow()));
        }
    }
    Ok(())
}
fn collect(rng: &mut Rng, _: Mode) -> R {
    let s = script(rng);
    parsers(
        rng,
        &dbg(&s),
        |_| IterativeParserExtension::<Pos>::collect::<Col>(Iter::new(&s)),
        |r, pos| {
            let mut it = RefIter { s: &s, k: 0 };
            let mut c = Col::default();
            let mut at = pos;
            loop {
                match it.step(r, at) {
                    Ok((Some(v), p)) => {
                        c.0.push(v);
                        at = p;
                    }
                    Ok((None, _)) => return Ok((dbg(&(c, None::<Er>)), at)),
                    Err((e, _)) => return Ok((dbg(&(c, Some(e))), at)),
                }
            }
        },
    )
}
fn fold(rng: &mut Rng, _: Mode) -> R {
    let s = script(rng);
    parsers(
        rng,
        &dbg(&s),
        |w| {
            let w = w.clone();
            IterativeParserExtension::<Pos>::fold(Iter::new(&s), vec![77usize], move |mut a: Vec<usize>, v: Val| {
                w.push(Ev::Call(1));
                a.push(v.1 * 100 + v.2 as usize);
                a
            })
        },
        |r, pos| {
            let mut it = RefIter { s: &s, k: 0 };
            let mut a = vec![77usize];
            let mut at = pos;
            loop {
                match it.step(r, at) {
                    Ok((Some(v), p)) => {
                        r.log.push(Ev::Call(1));
                        a.push(v.1 * 100 + v.2 as usize);
                        at = p;
                    }
                    Ok((None, p)) => return Ok((dbg(&a), p)),
                    Err((e, p)) => return Err((dbg(&e), p)),
                }
            }
        },
    )
}

fn main() {
    engine::main(&[
        fatal("C02", "iterative optional", optional),
        fatal("C02", "iterative repeat", repeat),
        fam("C03", "iterative optional", optional),
        fam("C04", "iterative repeat", repeat),
        fam("C13", "collect", collect),
        fam("C13", "fold", fold),
        fam("C14", "map_each", map_each),
        fam("C14", "try_map_each", try_map_each),
        fam("C14", "map_while", map_while),
        fam("C14", "scan", scan),
        fam("C14", "take", take),
        fam("C14", "stacked", stacked),
    ]);
}
