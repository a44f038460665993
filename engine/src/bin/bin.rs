//! C07 (and the operator expressions of C02): scripted terms and operators against the defining property of the tree.
use engine::*;
use parcom_core::*;
use parcom_parsers::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_util::Either;

#[derive(Debug, Clone, PartialEq)]
struct Op {
    v: Val,
    prec: usize,
    left: bool,
}
impl Operator for Op {
    fn precedence(&self) -> usize {
        self.prec
    }
    fn associativity(&self) -> Associativity {
        if self.left { Associativity::Left } else { Associativity::Right }
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Ex {
    T(Val),
    B(Box<Ex>, Op, Box<Ex>),
}
impl From<Val> for Ex {
    fn from(v: Val) -> Ex {
        Ex::T(v)
    }
}
impl From<(Ex, Op, Ex)> for Ex {
    fn from((l, o, r): (Ex, Op, Ex)) -> Ex {
        Ex::B(Box::new(l), o, Box::new(r))
    }
}
#[derive(Clone, Debug)]
struct Ops {
    scr: Scr,
    kinds: std::rc::Rc<Vec<(usize, bool)>>,
}
fn op_of(kinds: &[(usize, bool)], v: Val) -> Op {
    let (prec, left) = kinds[v.1 % kinds.len()];
    Op { v, prec, left }
}
impl ParserOnce<Pos> for Ops {
    type Output = Op;
    type Error = Er;
    async fn parse_once(self, input: Pos) -> ParserResult<Pos, Self> {
        self.parse(input).await
    }
}
impl Parser<Pos> for Ops {
    async fn parse(&self, input: Pos) -> ParserResult<Pos, Self> {
        let (v, r) = self.scr.parse(input).await?;
        Ok((op_of(&self.kinds, v), r))
    }
}

/// operator k belongs to the right operand of the earlier operator j
fn right_of(j: &Op, k: &Op) -> bool {
    k.prec > j.prec || (k.prec == j.prec && !j.left)
}
/// the tree the property dictates: at the root every earlier operator binds tighter and every later one no looser
fn tree(terms: &[Val], ops: &[Op]) -> Ex {
    if ops.is_empty() {
        return Ex::T(terms[0].clone());
    }
    let roots: Vec<usize> = (0..ops.len())
        .filter(|&k| (0..k).all(|j| !right_of(&ops[j], &ops[k])) && (k + 1..ops.len()).all(|j| right_of(&ops[k], &ops[j])))
        .collect();
    assert_eq!(roots.len(), 1, "the property does not determine a root");
    let k = roots[0];
    Ex::B(Box::new(tree(&terms[..=k], &ops[..k])), ops[k].clone(), Box::new(tree(&terms[k + 1..], &ops[k + 1..])))
}

type Want = PR<(Ex, Either<Er, Er>), Either<Er, Er>>;
fn expected(r: &mut Rf, term: &Table, op: &Table, kinds: &[(usize, bool)], pos: usize) -> Want {
    let (mut terms, mut ops) = (vec![], vec![]);
    let mut at = match r.run(term, pos) {
        Ok((v, p)) => {
            terms.push(v);
            p
        }
        Err((e, p)) => return Err((Either::Last(e), p)),
    };
    let why = loop {
        let (o, p) = match r.run(op, at) {
            Ok((v, p)) => (op_of(kinds, v), p),
            Err((e, p)) if e.fatal => return Err((Either::First(e), p)),
            Err((e, _)) => break Either::First(e),
        };
        match r.run(term, p) {
            Ok((v, p)) => {
                terms.push(v);
                ops.push(o);
                at = p;
            }
            Err((e, p)) if e.fatal => return Err((Either::Last(e), p)),
            Err((e, _)) => break Either::Last(e),
        }
    };
    Ok(((tree(&terms, &ops), why), at))
}
fn expr(rng: &mut Rng, mode: Mode, len: usize, fatal: usize) -> R {
    let ok = if fatal > 0 { 8 } else { 9 + rng.below(2) };
    let term = Table::random(rng, 0, len, 1, ok, fatal);
    let op = Table::random(rng, 1, len, 0, ok, fatal);
    let levels: &[usize] = match rng.below(6) {
        0 => &[0, usize::MAX],
        1 => &[0],
        2 => &[0, 1, 2, 3, 4, 5, 6, 7],
        3 => &[0, 1],
        4 => &[usize::MAX - 1, usize::MAX],
        _ => &[0, 1, 2, usize::MAX],
    };
    // operators of one level may differ in associativity: the property speaks about each pair of operators
    let mixed = rng.chance(1, 2);
    let named = rng.near(4, usize::MAX - 2).map(|k| [0, k, k.saturating_sub(1), k + 1]);
    let levels = match &named {
        Some(l) => l,
        None => levels,
    };
    let climbing = rng.chance(1, 5);
    let kinds: Vec<(usize, bool)> = (0..=3 * len)
        .map(|i| {
            let p = if climbing { i } else { *rng.pick(levels) };
            (p, if mixed { rng.chance(1, 2) } else { p % 2 == 0 })
        })
        .collect();
    let w = World::new(if rng.chance(1, 2) { rng.next() | 1 } else { 0 });
    let p: BinExprParser<Pos, Scr, Ops, Ex> =
        BinExprParser::new(Scr::new(&term), Ops { scr: Scr::new(&op), kinds: std::rc::Rc::new(kinds.clone()) });
    let mut serial = 0;
    let by_ref = rng.below(3);
    let mut p = Some(p);
    for i in 0..=by_ref {
        w.log.borrow_mut().clear();
        let pos = rng.below(3);
        let input = Pos { w: w.clone(), pos };
        let got = if i == by_ref { block_on(p.take().unwrap().parse_once(input)) } else { block_on(p.as_ref().unwrap().parse(input)) };
        let got: Want = bare(got);
        let mut log = vec![];
        let want = expected(&mut Rf { log: &mut log, serial: &mut serial }, &term, &op, &kinds, pos);
        if mode == Mode::Fatal {
            let fatal = matches!(&want, Err((e, _)) if e.should_terminate());
            if !fatal {
                serial = w.serial.get();
                continue;
            }
        }
        trace(&(pos, &want, &log));
        let ctx = || format!("run {i} at {pos}; terms {term:?}, operators {op:?}, kinds {kinds:?}");
        if format!("{got:?}") != format!("{want:?}") {
            return Err(format!("got {got:?}, expected {want:?}; {}", ctx()));
        }
        if *w.log.borrow() != log {
            return Err(format!("calls {:?}, expected {log:?}; {}", w.log.borrow(), ctx()));
        }
    }
    Ok(())
}
fn short(rng: &mut Rng, m: Mode) -> R {
    let n = 1 + rng.below(8);
    expr(rng, m, n, 2)
}
fn long(rng: &mut Rng, m: Mode) -> R {
    let n = 8 + rng.few(40).min(1000);
    expr(rng, m, n, 0)
}
/// an expression known by a digest of its tree, for chains too long to nest
#[derive(Debug, Clone, Copy, PartialEq)]
struct Sum(u64);
fn mix(parts: [u64; 3]) -> Sum {
    Sum(parts.iter().fold(0x517c_c1b7_2722_0a95, |h: u64, k| (h.rotate_left(23) ^ k).wrapping_mul(0x9e37_79b9_7f4a_7c15)))
}
impl From<Val> for Sum {
    fn from(v: Val) -> Sum {
        mix([v.0 as u64, v.1 as u64, v.2])
    }
}
impl From<(Sum, Op, Sum)> for Sum {
    fn from((l, o, r): (Sum, Op, Sum)) -> Sum {
        mix([l.0, Sum::from(o.v).0 ^ o.prec as u64, r.0])
    }
}
fn digest(e: &Ex) -> Sum {
    match e {
        Ex::T(v) => v.clone().into(),
        Ex::B(l, o, r) => (digest(l), o.clone(), digest(r)).into(),
    }
}
/// the digest of the same tree in linear time
fn digest_of(terms: Vec<Val>, ops: Vec<Op>) -> Sum {
    let mut terms = terms.into_iter().map(Sum::from);
    let mut open: Vec<(Sum, Op)> = vec![];
    let mut last = terms.next().unwrap();
    for (o, t) in ops.into_iter().zip(terms) {
        while open.last().is_some_and(|(_, j)| !right_of(j, &o)) {
            let (l, j) = open.pop().unwrap();
            last = (l, j, last).into();
        }
        open.push((last, o));
        last = t;
    }
    while let Some((l, j)) = open.pop() {
        last = (l, j, last).into();
    }
    last
}
fn chain(rng: &mut Rng, _: Mode) -> R {
    let n = rng.near(2, 70000).unwrap_or_else(|| rng.few(60));
    let term = Table { id: 0, beh: vec![Beh { eat: 1, out: Out::Ok }; 2 * n + 1] };
    let op = Table { id: 1, beh: vec![Beh { eat: 1, out: Out::Ok }; 2 * n] };
    let kinds: Vec<(usize, bool)> = match rng.below(4) {
        0 => vec![(0, true)],
        1 => vec![(3, false)],
        2 => (0..2 * n + 1).map(|i| (i, false)).collect(),
        _ => (0..7).map(|_| { let p = rng.below(3); (p, p % 2 == 0) }).collect(),
    };
    let w = World::new(0);
    let p: BinExprParser<Pos, Scr, Ops, Sum> =
        BinExprParser::new(Scr::new(&term), Ops { scr: Scr::new(&op), kinds: std::rc::Rc::new(kinds.clone()) });
    let (mut terms, mut ops, mut at, mut serial) = (vec![], vec![], 0, 0);
    let mut log = vec![];
    let mut rf = Rf { log: &mut log, serial: &mut serial };
    let (v, mut next) = rf.run(&term, 0).unwrap();
    terms.push(v);
    let why = loop {
        at = next;
        match rf.run(&op, at) {
            Ok((v, p)) => match rf.run(&term, p) {
                Ok((t, p)) => {
                    ops.push(op_of(&kinds, v));
                    terms.push(t);
                    next = p;
                }
                Err((e, _)) => break Either::Last(e),
            },
            Err((e, _)) => break Either::First(e),
        }
    };
    if n <= 60 {
        assert_eq!(digest(&tree(&terms, &ops)), digest_of(terms.clone(), ops.clone()));
    }
    trace(&(n, kinds.iter().take(7).collect::<Vec<_>>()));
    let want: PR<(Sum, Either<Er, Er>), Either<Er, Er>> = Ok(((digest_of(terms, ops), why), at));
    let got = bare(block_on(p.parse(Pos { w: w.clone(), pos: 0 })));
    if format!("{got:?}") != format!("{want:?}") {
        let kinds = &kinds[..kinds.len().min(7)];
        return Err(format!("got {got:?}, expected {want:?} (digests of trees); a chain of {n} operators of kinds {kinds:?}.."));
    }
    if *w.log.borrow() != log {
        return Err(format!("a chain of {n} operators: the calls differ"));
    }
    Ok(())
}
fn main() {
    engine::main(&[slow("C07", "long chains", 20, chain), fam("C07", "expressions", short), slow("C07", "long expressions", 30, long), fatal("C02", "operator expressions", short)])
}
