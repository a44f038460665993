//! Sequences whose input is cut into arbitrary segments, empty ones included; every operation may suspend.
use crate::*;
use parcom_core::primitive::BytesDelta;
use parcom_core::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Text {
    pub w: Rc<World>,
    pub segs: Rc<Vec<String>>,
    pub pos: usize,
    pub lead: usize,
}
pub struct Next<'a, T: ?Sized>(Delay<Option<&'a T>>);
impl<'a, T: ?Sized> std::future::Future for Next<'a, T> {
    type Output = Option<&'a T>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        std::pin::Pin::new(&mut self.0).poll(cx)
    }
}
pub struct TextSegs<'s> {
    s: &'s Text,
    lead: usize,
    at: usize,
    done: usize,
}
impl<'s> SegmentStream for TextSegs<'s> {
    type Segment = str;
    type Length = BytesDelta;
    type Next<'a>
        = Next<'a, str>
    where
        Self: 'a;
    fn next(&mut self, _: BytesDelta) -> Next<'_, str> {
        let d = self.s.w.delay();
        if self.lead > 0 {
            self.lead -= 1;
            return Next(Delay(d, Some(Some(""))));
        }
        while self.at < self.s.segs.len() {
            let seg = &self.s.segs[self.at];
            let from = self.done;
            self.at += 1;
            self.done += seg.len();
            if self.s.pos > from && self.s.pos >= from + seg.len() {
                continue;
            }
            return Next(Delay(d, Some(Some(&seg[self.s.pos.saturating_sub(from)..]))));
        }
        Next(Delay(d, Some(None)))
    }
}
impl Sequence for Text {
    type Length = BytesDelta;
    type Segment = str;
    type Segments<'a> = TextSegs<'a>;
    type Advance = Delay<Text>;
    fn segments(&mut self) -> TextSegs<'_> {
        TextSegs { s: self, lead: self.lead, at: 0, done: 0 }
    }
    fn advance(mut self, d: BytesDelta) -> Delay<Text> {
        self.pos += d.to_bytes();
        Delay(self.w.delay(), Some(self))
    }
}
impl RewindSequence for Text {
    type Anchor = usize;
    type Rewind = Delay<Text>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, a: usize) -> Delay<Text> {
        self.pos = a;
        Delay(self.w.delay(), Some(self))
    }
}

#[derive(Clone, Debug)]
pub struct Items<T> {
    pub w: Rc<World>,
    pub segs: Rc<Vec<Vec<T>>>,
    pub pos: usize,
    pub lead: usize,
}
pub struct ItemSegs<'s, T> {
    s: &'s Items<T>,
    lead: usize,
    at: usize,
    done: usize,
}
impl<'s, T: 'static> SegmentStream for ItemSegs<'s, T> {
    type Segment = [T];
    type Length = usize;
    type Next<'a>
        = Next<'a, [T]>
    where
        Self: 'a;
    fn next(&mut self, _: usize) -> Next<'_, [T]> {
        let d = self.s.w.delay();
        if self.lead > 0 {
            self.lead -= 1;
            return Next(Delay(d, Some(Some(&[]))));
        }
        while self.at < self.s.segs.len() {
            let seg = &self.s.segs[self.at];
            let from = self.done;
            self.at += 1;
            self.done += seg.len();
            if self.s.pos > from && self.s.pos >= from + seg.len() {
                continue;
            }
            return Next(Delay(d, Some(Some(&seg[self.s.pos.saturating_sub(from)..]))));
        }
        Next(Delay(d, Some(None)))
    }
}
impl<T: 'static> Sequence for Items<T> {
    type Length = usize;
    type Segment = [T];
    type Segments<'a> = ItemSegs<'a, T>;
    type Advance = Delay<Items<T>>;
    fn segments(&mut self) -> ItemSegs<'_, T> {
        ItemSegs { s: self, lead: self.lead, at: 0, done: 0 }
    }
    fn advance(mut self, d: usize) -> Delay<Items<T>> {
        self.pos += d;
        Delay(self.w.delay(), Some(self))
    }
}
impl<T: 'static> RewindSequence for Items<T> {
    type Anchor = usize;
    type Rewind = Delay<Items<T>>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, a: usize) -> Delay<Items<T>> {
        self.pos = a;
        Delay(self.w.delay(), Some(self))
    }
}

pub const CHARS: &[char] = &['a', 'b', 'é', 'è', 'あ', 'い', '😀', '\r', '\n'];
pub fn text(rng: &mut Rng, max: usize) -> String {
    let kinds = 1 + rng.below(CHARS.len());
    (0..rng.few(max + 1)).map(|_| rng.letter(&CHARS[..kinds])).collect()
}
/// cuts a text into segments at character boundaries
pub fn cut(rng: &mut Rng, s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut chars: Vec<char> = s.chars().collect();
    chars.reverse();
    let p = rng.below(4);
    loop {
        while rng.chance(1, 5) {
            v.push(String::new());
        }
        let Some(c) = chars.pop() else { break };
        cur.push(c);
        if rng.below(4) <= p {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    while rng.chance(1, 5) {
        v.push(String::new());
    }
    v
}
pub fn cut_items<T: Clone>(rng: &mut Rng, s: &[T]) -> Vec<Vec<T>> {
    let mut v = vec![];
    let mut cur = vec![];
    let p = rng.below(4);
    for x in s {
        while rng.chance(1, 5) {
            v.push(vec![]);
        }
        cur.push(x.clone());
        if rng.below(4) <= p {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    while rng.chance(1, 5) {
        v.push(vec![]);
    }
    v
}
pub fn in_text(rng: &mut Rng, s: &str) -> Text {
    let segs = Rc::new(cut(rng, s));
    let lead = if rng.chance(1, 4) { 1 } else { 0 };
    Text { w: World::new(if rng.chance(1, 2) { rng.next() | 1 } else { 0 }), segs, pos: 0, lead }
}
pub fn in_items<T: Clone>(rng: &mut Rng, s: &[T]) -> Items<T> {
    let segs = Rc::new(cut_items(rng, s));
    let lead = if rng.chance(1, 4) { 1 } else { 0 };
    Items { w: World::new(if rng.chance(1, 2) { rng.next() | 1 } else { 0 }), segs, pos: 0, lead }
}
