//! C10, C11: texts and slices, plain and measured, under histories of anchor / advance / rewind.
use engine::*;
use parcom_core::measured::{IntoMeasured, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::*;
use parcom_metrics::{end_of_line, EndOfLine, LineColumn, LineColumnMeter};
use std::fmt::Debug;

/// all that is left, read through the segments
fn read_text<S: Sequence<Segment = str, Length = BytesDelta>>(s: &mut S) -> Vec<String> {
    let mut g = s.segments();
    let mut v = vec![];
    loop {
        match block_on(async { g.next(BytesDelta::ZERO).await.map(|s| s.to_string()) }) {
            Some(x) => v.push(x),
            None => return v,
        }
        if v.len() > 3 {
            return v;
        }
    }
}
fn read_items<T: Clone, S: Sequence<Segment = [T], Length = usize>>(s: &mut S) -> Vec<T> {
    let mut g = s.segments();
    let mut v = vec![];
    for _ in 0..3 {
        match block_on(async { g.next(0).await.map(|s| s.to_vec()) }) {
            Some(x) => v.extend(x),
            None => break,
        }
    }
    v
}
/// a sequence that can be compared with the input it was made from
trait Probe: RewindSequence {
    /// the number of items left, after checking that they are the last of `whole`
    fn left(&mut self, whole: &Whole) -> Result<usize, String>;
    fn len(n: usize) -> Self::Length;
    /// metrics after the prefix
    fn meter(&self, _consumed: &str, _n: usize) -> R {
        Ok(())
    }
}
struct Whole {
    text: String,
    at: usize,
}
fn text_left(whole: &Whole, v: Vec<String>) -> Result<usize, String> {
    let s = v.concat();
    if !whole.text.ends_with(&s) {
        return Err(format!("segments {v:?} are not the end of {:?}", whole.text));
    }
    Ok(s.len())
}
impl Probe for &str {
    fn left(&mut self, whole: &Whole) -> Result<usize, String> {
        let n = text_left(whole, read_text(self))?;
        if n != str::len(self) || self.as_ptr() as usize != whole.at + whole.text.len() - n {
            return Err(format!("the text is {self:?} but its segments have {n} bytes, or it lies elsewhere"));
        }
        Ok(n)
    }
    fn len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
}
fn items_left<T: Clone + PartialEq + Debug>(all: &[T], v: Vec<T>) -> Result<usize, String> {
    if !all.ends_with(&v) {
        return Err(format!("segments {v:?} are not the end of {all:?}"));
    }
    Ok(v.len())
}
// slices of bytes, of words and of units stand for the text's bytes
macro_rules! slices {
    ($t:ty, $f:expr) => {
        impl Probe for &[$t] {
            fn left(&mut self, whole: &Whole) -> Result<usize, String> {
                let all: Vec<$t> = whole.text.bytes().map($f).collect();
                let n = items_left(&all, read_items(self))?;
                if n != <[$t]>::len(self) || self.as_ptr() as usize != whole.at + (all.len() - n) * std::mem::size_of::<$t>() {
                    return Err(format!("the slice is {self:?} but its segments have {n} items, or it lies elsewhere"));
                }
                Ok(n)
            }
            fn len(n: usize) -> usize {
                n
            }
        }
        impl Probe for SliceM<'_, $t> {
            fn left(&mut self, whole: &Whole) -> Result<usize, String> {
                let all: Vec<$t> = whole.text.bytes().map($f).collect();
                items_left(&all, read_items(self))
            }
            fn len(n: usize) -> usize {
                n
            }
            fn meter(&self, _: &str, n: usize) -> R {
                if self.metrics().0 == n + 3 { Ok(()) } else { Err(format!("metrics {:?} after {n} items from 3", self.metrics())) }
            }
        }
        impl Probe for CountM<'_, $t> {
            fn left(&mut self, whole: &Whole) -> Result<usize, String> {
                let all: Vec<$t> = whole.text.bytes().map($f).collect();
                items_left(&all, read_items(self))
            }
            fn len(n: usize) -> usize {
                n
            }
            fn meter(&self, _: &str, n: usize) -> R {
                if self.metrics() == n { Ok(()) } else { Err(format!("count {:?} after {n} items", self.metrics())) }
            }
        }
    };
}
type SliceM<'a, T> = parcom_core::primitive::slice::Measured<'a, T, Sum>;
type CountM<'a, T> = parcom_core::primitive::slice::Measured<'a, T, usize>;
type TextM<'a> = parcom_core::primitive::str::Measured<'a, Log>;
slices!(u8, |b| b);
slices!(u32, |b| b as u32 * 7);
slices!((), |_| ());

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Sum(usize);
#[derive(Clone, Default)]
struct SumMeter(usize);
impl<T> Meter<[T]> for SumMeter {
    type Metrics = Sum;
    fn advance(self, s: &[T]) -> Self {
        SumMeter(self.0 + s.len())
    }
    fn metrics(&self) -> Sum {
        Sum(self.0)
    }
}
impl<T> Metrics<[T]> for Sum {
    type Meter = SumMeter;
}
/// everything metered, in order
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Log(String);
#[derive(Clone, Default)]
struct LogMeter(String);
impl Meter<str> for LogMeter {
    type Metrics = Log;
    fn advance(self, s: &str) -> Self {
        LogMeter(self.0 + s)
    }
    fn metrics(&self) -> Log {
        Log(self.0.clone())
    }
}
impl Metrics<str> for Log {
    type Meter = LogMeter;
}
impl Probe for TextM<'_> {
    fn left(&mut self, whole: &Whole) -> Result<usize, String> {
        text_left(whole, read_text(self))
    }
    fn len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn meter(&self, consumed: &str, _: usize) -> R {
        if self.metrics().0 == format!("^{consumed}") {
            Ok(())
        } else {
            Err(format!("metered {:?} after {consumed:?} from \"^\"", self.metrics().0))
        }
    }
}

/// runs a random history against the positions it should go through
fn history<S: Probe>(rng: &mut Rng, mut s: S, whole: &Whole, stops: &[usize], past: bool) -> R {
    let all = whole.text.len();
    let mut at = 0;
    let mut anchors: Vec<(usize, S::Anchor)> = vec![];
    let mut log = vec![];
    for _ in 0..1 + rng.few(9).min(120) {
        match rng.below(5) {
            0 | 1 => {
                let later: Vec<usize> = stops.iter().copied().filter(|p| *p >= at).collect();
                let (n, to) = if past && rng.chance(1, 6) { (all - at + rng.below(4), all) } else { 
                    // a number the code names: as the length, or as what is left
                    let named = rng.near(4, all);
                    let by = rng.chance(1, 2);
                    let p = match named.and_then(|n| later.iter().find(|p| if by { **p >= at + n } else { **p + n >= all })) {
                        Some(p) => *p,
                        None => *rng.pick(&later),
                    };
                    (p - at, p)
                };
                log.push(format!("advance {n}"));
                s = block_on(async { s.advance(S::len(n)).await });
                at = to;
            }
            2 => {
                log.push("anchor".into());
                anchors.push((at, s.anchor()));
            }
            3 if !anchors.is_empty() => {
                let i = rng.below(anchors.len());
                anchors.truncate(i + 1);
                let (p, a) = anchors.pop().unwrap();
                log.push(format!("rewind to {p}"));
                trace(&(&whole.text, &log));
                s = block_on(async { s.rewind(a).await });
                at = p;
            }
            _ => {}
        }
        trace(&(&whole.text, &log));
        let n = s.left(whole).map_err(|m| format!("{:?}, {log:?}: {m}", whole.text))?;
        if n != all - at {
            return Err(format!("{:?}, {log:?}: {n} left, not {}", whole.text, all - at));
        }
        s.meter(&whole.text[..if whole.text.is_char_boundary(at) { at } else { 0 }], at).map_err(|m| format!("{:?}, {log:?}: {m}", whole.text))?;
    }
    Ok(())
}
fn stops(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
    v.push(s.len());
    v
}
fn every(n: usize) -> Vec<usize> {
    (0..=n).collect()
}
/// the input is cut out of the middle of something bigger
fn texts(rng: &mut Rng, _: Mode) -> R {
    let t = text(rng, 8);
    let c = t.chars().next().unwrap_or('x');
    let d = (BytesDelta::from_str(&t).to_bytes(), BytesDelta::from_char(c).to_bytes(), BytesDelta::from_bytes(t.len()).to_bytes(), BytesDelta::ZERO.to_bytes());
    if d != (t.len(), c.len_utf8(), t.len(), 0) {
        return Err(format!("the lengths of {t:?}, {c:?}, {} bytes and nothing are {d:?}", t.len()));
    }
    if BytesDelta::from_bytes(c.len_utf8()) != BytesDelta::from_char(c) || BytesDelta::from_bytes(t.len()).cmp(&BytesDelta::from_char(c)) != t.len().cmp(&c.len_utf8()) {
        return Err(format!("the lengths of {t:?} and {c:?} compare wrongly"));
    }
    let big = format!("{}{}{}", text(rng, 2), t, text(rng, 2));
    let from = big.find(&t).unwrap();
    let s = &big[from..from + t.len()];
    let mut p = s;
    let mut q = p.peek();
    let (seen, kept) = (read_text(&mut q).concat(), read_text(&mut p).concat());
    if seen != t || kept != t || p.as_ptr() != s.as_ptr() {
        return Err(format!("peeking {t:?} shows {seen:?} and leaves {kept:?}"));
    }
    history(rng, s, &Whole { text: t.clone(), at: s.as_ptr() as usize }, &stops(&t), true)
}
fn slices(rng: &mut Rng, _: Mode) -> R {
    let t = text(rng, 6);
    let n = t.len();
    match rng.below(3) {
        0 => {
            let v: Vec<u8> = t.bytes().collect();
            history(rng, &v[..], &Whole { at: v.as_ptr() as usize, text: t }, &every(n), false)
        }
        1 => {
            let v: Vec<u32> = t.bytes().map(|b| b as u32 * 7).collect();
            let mut p = &v[..];
            let mut q = p.peek();
            let (seen, kept) = (read_items(&mut q), read_items(&mut p));
            if seen != v || kept != v || p.as_ptr() != v.as_ptr() {
                return Err(format!("peeking {v:?} shows {seen:?} and leaves {kept:?}"));
            }
            history(rng, &v[..], &Whole { at: v.as_ptr() as usize, text: t }, &every(n), false)
        }
        _ => {
            let v = vec![(); n];
            history(rng, &v[..], &Whole { at: v.as_ptr() as usize, text: t }, &every(n), false)
        }
    }
}
fn measured_texts(rng: &mut Rng, _: Mode) -> R {
    let t = text(rng, 8);
    let s: &str = &t;
    history(rng, s.into_measured_with::<Log>(LogMeter("^".into())), &Whole { text: t.clone(), at: 0 }, &stops(&t), true)
}
fn measured_slices(rng: &mut Rng, _: Mode) -> R {
    let t = text(rng, 6);
    let n = t.len();
    let v: Vec<u8> = t.bytes().collect();
    let w: Vec<u32> = t.bytes().map(|b| b as u32 * 7).collect();
    let u = vec![(); n];
    let whole = Whole { text: t, at: 0 };
    match rng.below(6) {
        0 => history(rng, (&v[..]).into_measured_with::<Sum>(SumMeter(3)), &whole, &every(n), false),
        1 => history(rng, (&w[..]).into_measured_with::<Sum>(SumMeter(3)), &whole, &every(n), false),
        2 => history(rng, (&u[..]).into_measured_with::<Sum>(SumMeter(3)), &whole, &every(n), false),
        3 => history(rng, (&v[..]).into_measured::<usize>(), &whole, &every(n), false),
        4 => history(rng, (&w[..]).into_measured::<usize>(), &whole, &every(n), false),
        _ => history(rng, (&u[..]).into_measured::<usize>(), &whole, &every(n), false),
    }
}
fn lines<E: EndOfLine>(rng: &mut Rng) -> R {
    let t: String = (0..rng.few(10)).map(|_| *rng.pick(&['a', '\n', '\r', 'é', '\n'])).collect();
    let mut s = (&t[..]).into_measured::<LineColumn<E>>();
    let st = stops(&t);
    let mut at = 0;
    let mut log = vec![];
    for _ in 0..4 {
        let later: Vec<usize> = st.iter().copied().filter(|p| *p >= at).collect();
        let p = *rng.pick(&later);
        log.push(p);
        trace(&(&t, &log));
        s = block_on(async { s.advance(BytesDelta::from_bytes(p - at)).await });
        at = p;
        let (m, w) = (s.metrics(), LineColumnMeter::<E>::default().advance(&t[..at]).metrics());
        if m != w || m.line != w.line || m.column != w.column {
            return Err(format!("{t:?}, advanced to {log:?}: metrics line {} column {}, of the prefix line {} column {}", m.line, m.column, w.line, w.column));
        }
    }
    Ok(())
}
fn measured_lines(rng: &mut Rng, _: Mode) -> R {
    match rng.below(2) {
        0 => lines::<end_of_line::LF>(rng),
        _ => lines::<end_of_line::CRLF>(rng),
    }
}
fn main() {
    engine::main(&[
        fam("C10", "texts", texts),
        fam("C10", "slices", slices),
        fam("C11", "measured texts", measured_texts),
        fam("C11", "measured slices", measured_slices),
        slow("C11", "measured lines", 50, measured_lines),
    ]);
}
