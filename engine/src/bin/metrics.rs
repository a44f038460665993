//! C12: line/column metrics against a naive recount of the whole text.
use std::cmp::Ordering;
use engine::*;
use parcom_core::measured::Meter;
use parcom_metrics::end_of_line::{EndOfLineMatch, CR, CRLF, LF};
use parcom_metrics::{EndOfLine, LineColumn, LineColumnMeter};

const RARE: &[char] = &['\t', '\u{feff}', '\u{200b}', '\u{301}', '\u{85}', '\u{2029}', '\u{b}', '\u{c}', '\0', '\u{ff21}', '漢', '\u{10ffff}', '\u{7f}', '\u{200d}', '\u{1f3fd}'];
const SET: &[char] = &['\n', '\r', '\n', '\r', 'a', 'é', '😀', '\u{2028}', ' '];

/// cut at character boundaries, empty pieces included
fn pieces(rng: &mut Rng, s: &[char]) -> Vec<String> {
    let mut v = vec![];
    let mut at = 0;
    while at < s.len() {
        let n = if rng.chance(1, 4) { 0 } else { 1 + rng.below(s.len() - at) };
        v.push(s[at..at + n].iter().collect());
        at += n;
    }
    if rng.chance(1, 4) {
        v.push(String::new());
    }
    v
}
fn ends(eol: &str, before: &[char]) -> bool {
    before[before.len().saturating_sub(2)..].iter().collect::<String>().ends_with(eol)
}
/// (total, line, column) after `s`, from `start`
fn want(eol: &str, start: (usize, usize, usize), s: &[char]) -> (usize, usize, usize) {
    let (mut line, mut column) = (start.1, start.2);
    for i in 0..s.len() {
        if i == 0 || ends(eol, &s[..i]) {
            line += 1;
            column = 0;
        }
        column += 1;
    }
    (start.0 + s.len(), line, column)
}
fn read<E: EndOfLine>(m: &LineColumnMeter<E>) -> (usize, usize, usize) {
    let m = m.metrics();
    (m.total_count, m.line, m.column)
}
fn random(rng: &mut Rng, max: usize) -> Vec<char> {
    if max > 8 && rng.chance(1, 40) {
        // long lines
        let n = 200 + rng.below(900);
        let every = 3 + rng.below(400);
        return (0..n).map(|_| if rng.chance(1, every) { *rng.pick(SET) } else { 'x' }).collect();
    }
    if let Some(n) = if max > 8 { rng.near(60, 70000) } else { None } {
        let c = *rng.pick(&['x', 'x', '\n', '\r']);
        return (0..n + rng.below(4)).map(|_| if rng.chance(1, n + 4) { *rng.pick(SET) } else { c }).collect();
    }
    (0..rng.few(max + 1)).map(|_| if rng.chance(1, 12) { *rng.pick(RARE) } else { rng.letter(SET) }).collect()
}
fn meter<E: EndOfLine>(rng: &mut Rng, eol: &str) -> R {
    let s = random(rng, 14);
    let cut = pieces(rng, &s);
    let pre: Option<String> = rng.chance(1, 3).then(|| random(rng, 5).iter().collect());
    trace(&(eol, &pre, &cut));
    let (start, m): (_, LineColumnMeter<E>) = match &pre {
        None => ((0, 0, 0), LineColumnMeter::default()),
        Some(p) => {
            let at = LineColumnMeter::<E>::default().advance(p).metrics();
            ((at.total_count, at.line, at.column), LineColumnMeter::new(at))
        }
    };
    let whole: String = s.iter().collect();
    let mut m1 = m;
    let mut n = 0;
    for c in &cut {
        m1 = m1.advance(c);
        n += c.chars().count();
        let w = want(eol, start, &s[..n]);
        if read(&m1) != w {
            return Err(format!("{eol:?}: {cut:?} started at {start:?}: after {n} characters (total, line, column) is {:?}, not {w:?}", read(&m1)));
        }
    }
    if pre.is_none() {
        let m2 = LineColumnMeter::<E>::default().advance(&whole);
        if m1.metrics() != m2.metrics() || read(&m2) != read(&m1) {
            return Err(format!("{eol:?}: {cut:?} in pieces gives {:?}, at once {:?}", read(&m1), read(&m2)));
        }
    }
    Ok(())
}
fn meters(rng: &mut Rng, _: Mode) -> R {
    match rng.below(3) {
        0 => meter::<LF>(rng, "\n"),
        1 => meter::<CR>(rng, "\r"),
        _ => meter::<CRLF>(rng, "\r\n"),
    }
}
fn machine<E: EndOfLine>(rng: &mut Rng, eol: &str) -> R {
    let s = random(rng, 14);
    trace(&(eol, &s));
    let mut e = E::default();
    for i in 0..s.len() {
        let is = e.next(s[i]) == EndOfLineMatch::Match;
        if is != ends(eol, &s[..=i]) {
            return Err(format!("{eol:?}: after {:?} the match is {is}", &s[..=i]));
        }
    }
    Ok(())
}
fn machines(rng: &mut Rng, _: Mode) -> R {
    match rng.below(3) {
        0 => machine::<LF>(rng, "\n"),
        1 => machine::<CR>(rng, "\r"),
        _ => machine::<CRLF>(rng, "\r\n"),
    }
}
fn metrics_are(rng: &mut Rng, _: Mode) -> R {
    let s: String = random(rng, 8).iter().collect();
    trace(&s);
    let m: LineColumn<CRLF> = LineColumnMeter::default().advance(&s).metrics();
    let c = m.clone();
    if c != m || (c.total_count, c.line, c.column) != (m.total_count, m.line, m.column) || m.cmp(&c) != Ordering::Equal {
        return Err(format!("metrics {m:?} and their copy {c:?} differ"));
    }
    let mut o: LineColumn<CRLF> = m.clone();
    o.total_count = (o.total_count + rng.below(3)).saturating_sub(1);
    o.line = (o.line + rng.below(3)).saturating_sub(1);
    o.column = (o.column + rng.below(3)).saturating_sub(1);
    trace(&(o.total_count, o.line, o.column));
    let same = (o.total_count, o.line, o.column) == (m.total_count, m.line, m.column);
    let by_count = m.total_count.cmp(&o.total_count);
    let wrong = if same {
        m != o || !(m == o) || m.cmp(&o) != Ordering::Equal || m.partial_cmp(&o) != Some(Ordering::Equal) || m < o || m > o || !(m <= o) || !(m >= o)
    } else {
        m == o || !(m != o)
            || by_count != Ordering::Equal
                && (m.cmp(&o) != by_count
                    || m.partial_cmp(&o) != Some(by_count)
                    || (m < o) != by_count.is_lt()
                    || (m <= o) != by_count.is_le()
                    || (m > o) != by_count.is_gt()
                    || (m >= o) != by_count.is_ge()
                    || m.clone().max(o.clone()).total_count != m.total_count.max(o.total_count)
                    || m.clone().min(o.clone()).total_count != m.total_count.min(o.total_count))
    };
    if wrong {
        return Err(format!("metrics {m:?} and {o:?} compare wrongly"));
    }
    let (low, high) = if by_count.is_lt() { (&m, &o) } else { (&o, &m) };
    if by_count != Ordering::Equal && (m.clone().clamp(low.clone(), high.clone()) != m || o.clone().clamp(low.clone(), high.clone()) != o) {
        return Err(format!("metrics {m:?} and {o:?} are clamped wrongly"));
    }
    let mut k = o.clone();
    k.clone_from(&m);
    if k != m {
        return Err(format!("metrics {k:?} cloned from {m:?}"));
    }
    let d = LineColumn::<CRLF>::default();
    if (d.total_count, d.line, d.column) != (0, 0, 0) {
        return Err(format!("default metrics {d:?}"));
    }
    Ok(())
}
fn main() {
    engine::main(&[fam("C12", "meters", meters), fam("C12", "line endings", machines), slow("C12", "metrics", 10, metrics_are)]);
}
