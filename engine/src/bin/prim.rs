//! C08, C09: literal and single-item parsers over arbitrarily segmented input.
use engine::*;
use parcom_core::*;
use parcom_parsers::primitive::*;
use parcom_util::error::Miss;
use std::fmt::Debug;

/// Ok(value, consumed) or Err(consumed)
type Want<T> = Result<(T, usize), usize>;
fn text_case<P, O>(rng: &mut Rng, s: &str, start: usize, info: &dyn Debug, p: P, want: Want<O>) -> R
where
    P: Parser<Text, Output = O, Error = Miss<()>>,
    O: PartialEq + Debug,
{
    let mut input = in_text(rng, s);
    input.pos = start;
    let segs = input.segs.clone();
    trace(&(&segs, start, info));
    let once = rng.chance(1, 2);
    let got = block_on(p.parse(input.clone()));
    judge(got, &want, start, |t: &Text| t.pos).map_err(|m| format!("{m}; {info:?} on {segs:?} from {start}"))?;
    if once {
        let got = block_on(p.parse_once(input));
        judge(got, &want, start, |t: &Text| t.pos).map_err(|m| format!("{m}; {info:?} on {segs:?} from {start}, consumed"))?;
    }
    Ok(())
}
fn items_case<T, P, O>(rng: &mut Rng, s: &[T], start: usize, info: &dyn Debug, p: P, want: Want<O>) -> R
where
    T: Clone + Debug + 'static,
    P: Parser<Items<T>, Output = O, Error = Miss<()>>,
    O: PartialEq + Debug,
{
    let mut input = in_items(rng, s);
    input.pos = start;
    let segs = input.segs.clone();
    trace(&(&segs, start, info));
    let once = rng.chance(1, 2);
    let got = block_on(p.parse(input.clone()));
    judge(got, &want, start, |t: &Items<T>| t.pos).map_err(|m| format!("{m}; {info:?} on {segs:?} from {start}"))?;
    if once {
        let got = block_on(p.parse_once(input));
        judge(got, &want, start, |t: &Items<T>| t.pos).map_err(|m| format!("{m}; {info:?} on {segs:?} from {start}, consumed"))?;
    }
    Ok(())
}
fn judge<S, O: PartialEq + Debug>(got: ParseResult<S, O, Miss<()>>, want: &Want<O>, start: usize, pos: impl Fn(&S) -> usize) -> R {
    let got: Want<O> = match got {
        Ok((v, s)) => Ok((v, pos(&s) - start)),
        Err((e, l)) => {
            if e.should_terminate() {
                return Err("a miss is reported as fatal".into());
            }
            let s = unsafe { l.unwrap() };
            if pos(&s) < start {
                return Err("moved backwards".into());
            }
            Err(pos(&s) - start)
        }
    };
    if got == *want {
        Ok(())
    } else {
        Err(format!("got {got:?}, expected {want:?} (value and length consumed, or length consumed on failure)"))
    }
}
fn start_of(rng: &mut Rng, s: &str) -> usize {
    if rng.chance(1, 2) {
        return 0;
    }
    let mut b: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
    b.push(s.len());
    *rng.pick(&b)
}
/// a pattern that often matches all or most of the text
fn pattern(rng: &mut Rng, rest: &str) -> String {
    let chars: Vec<char> = rest.chars().collect();
    let mut p: String = chars[..rng.below(chars.len() + 1)].iter().collect();
    match rng.below(5) {
        0 => p.push(rng.letter(CHARS)),
        1 => {
            let c = p.pop().filter(|_| rng.chance(1, 2));
            let c = c.and_then(|c| char::from_u32(c as u32 ^ 1 << rng.below(21)));
            p.push(c.unwrap_or_else(|| rng.letter(CHARS)));
        }
        2 if rng.chance(1, 3) => p = text(rng, 4),
        _ => {}
    }
    p
}
fn atom_text(rng: &mut Rng, _: Mode) -> R {
    let s = text(rng, 8);
    let start = start_of(rng, &s);
    let pat = pattern(rng, &s[start..]);
    let want = if s[start..].starts_with(&pat) { Ok(((), pat.len())) } else { Err(0) };
    let plain = block_on(atom(pat.as_str()).parse(&s[start..]));
    judge(plain, &want, 0, |r: &&str| s.len() - start - r.len()).map_err(|m| format!("{m}; atom({pat:?}) on {:?}", &s[start..]))?;
    if rng.chance(1, 2) {
        text_case(rng, &s, start, &pat.clone(), atom(pat), want)
    } else {
        text_case(rng, &s, start, &pat.clone(), atom(pat.as_str()), want)
    }
}
fn atom_items(rng: &mut Rng, _: Mode) -> R {
    let k = 1 + rng.below(3);
    let s: Vec<u16> = (0..rng.few(9)).map(|_| rng.below(k) as u16).collect();
    let start = if rng.chance(1, 2) { 0 } else { rng.below(s.len() + 1) };
    let rest = &s[start..];
    let mut pat: Vec<u16> = rest[..rng.below(rest.len() + 1)].to_vec();
    match rng.below(5) {
        0 => pat.push(rng.below(k) as u16),
        1 => {
            let c = pat.pop().filter(|_| rng.chance(1, 2)).unwrap_or(0);
            pat.push(c ^ 1 << rng.below(16));
        }
        _ => {}
    }
    let want = if rest.starts_with(&pat) { Ok(((), pat.len())) } else { Err(0) };
    let plain = block_on(atom(pat.as_slice()).parse(rest));
    judge(plain, &want, 0, |r: &&[u16]| rest.len() - r.len()).map_err(|m| format!("{m}; atom({pat:?}) on {rest:?}"))?;
    if pat.len() == 2 {
        return items_case(rng, &s, start, &pat.clone(), atom([pat[0], pat[1]]), want);
    }
    if rng.chance(1, 2) {
        items_case(rng, &s, start, &pat.clone(), atom(pat), want)
    } else {
        items_case(rng, &s, start, &pat.clone(), atom(pat.as_slice()), want)
    }
}
fn chars(rng: &mut Rng, _: Mode) -> R {
    let s = text(rng, 4);
    let start = start_of(rng, &s);
    let first = s[start..].chars().next();
    let any = match first {
        Some(c) => Ok((c, c.len_utf8())),
        None => Err(0),
    };
    text_case(rng, &s, start, &"any_char", any_char::<Text>(), any)?;
    let c = match first {
        Some(c) if rng.chance(1, 2) => c,
        // like it but for a bit
        Some(c) if rng.chance(1, 3) => char::from_u32(c as u32 ^ 1 << rng.below(21)).unwrap_or('a'),
        _ => rng.letter(CHARS),
    };
    let want = if first == Some(c) { Ok(((), c.len_utf8())) } else { Err(0) };
    text_case(rng, &s, start, &("the_char", c), the_char(c), want)
}
fn items(rng: &mut Rng, _: Mode) -> R {
    let s: Vec<String> = (0..rng.below(4)).map(|_| rng.below(2).to_string()).collect();
    let start = rng.below(s.len() + 1);
    let first = s.get(start).cloned();
    let any = match &first {
        Some(c) => Ok((c.clone(), 1)),
        None => Err(0),
    };
    items_case(rng, &s, start, &"any_item", any_item::<String, Items<String>>(), any)?;
    let c = rng.below(2).to_string();
    let want = if first.as_ref() == Some(&c) { Ok(((), 1)) } else { Err(0) };
    items_case(rng, &s, start, &("the_item", c.clone()), the_item(c), want)
}
/// a segment type of a user's, which can be split everywhere and says no more
#[repr(transparent)]
struct Row([u8]);
impl Row {
    fn of(s: &[u8]) -> &Self {
        unsafe { &*(s as *const [u8] as *const Row) }
    }
}
impl SequenceSegment for Row {
    type Length = usize;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn split_at(&self, mid: usize) -> (&Self, &Self) {
        let (a, b) = self.0.split_at(mid);
        (Row::of(a), Row::of(b))
    }
}
fn rows(rng: &mut Rng, _: Mode) -> R {
    let v: Vec<u8> = (0..rng.below(7)).map(|_| rng.below(3) as u8).collect();
    let mid = rng.below(9);
    trace(&(&v, mid));
    let got = Row::of(&v).split_at_checked(mid).map(|(a, b)| (a.0.to_vec(), b.0.to_vec()));
    let want = (mid <= v.len()).then(|| (v[..mid].to_vec(), v[mid..].to_vec()));
    if got != want {
        return Err(format!("a segment of {v:?} split at {mid}: {got:?}"));
    }
    Ok(())
}
fn main() {
    engine::main(&[fam("C08", "atom text", atom_text), fam("C08", "atom items", atom_items), slow("C08", "segments", 20, rows), fam("C09", "chars", chars), fam("C09", "items", items)]);
}
