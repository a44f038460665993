//! What the overlays take std to do (marked TRUSTED there), tried on the std that is here. It says nothing about /repo, so no
//! check runs it: `rustc --edition 2021 -O tools/trust/trust.rs -o build/trust && build/trust`.
use std::alloc::Layout;
use std::cmp::Ordering;

// overlay/utf8.rs, mod rfc3629, word by word
fn width(b: u8) -> usize {
    if b <= 0x7f { 1 } else if (0xc2..=0xdf).contains(&b) { 2 } else if (0xe0..=0xef).contains(&b) { 3 } else if (0xf0..=0xf4).contains(&b) { 4 } else { 0 }
}
fn tail_byte(b0: u8, i: usize, x: u8) -> bool {
    if i == 1 && b0 == 0xe0 { (0xa0..=0xbf).contains(&x) }
    else if i == 1 && b0 == 0xed { (0x80..=0x9f).contains(&x) }
    else if i == 1 && b0 == 0xf0 { (0x90..=0xbf).contains(&x) }
    else if i == 1 && b0 == 0xf4 { (0x80..=0x8f).contains(&x) }
    else { (0x80..=0xbf).contains(&x) }
}
fn starts(b: &[u8]) -> bool {
    !b.is_empty() && width(b[0]) > 0 && width(b[0]) <= b.len() && (1..width(b[0])).all(|i| tail_byte(b[0], i, b[i]))
}
fn valid(b: &[u8]) -> bool { b.is_empty() || (starts(b) && valid(&b[width(b[0])..])) }
/// some bytes make it a text: try all ends of the last character
fn completable(b: &[u8]) -> bool {
    if valid(b) { return true; }
    let ends = [0x80u8, 0x8f, 0x90, 0x9f, 0xa0, 0xbf];
    let mut e = b.to_vec();
    for &x in &ends {
        e.truncate(b.len()); e.push(x);
        if valid(&e) { return true; }
        for &y in &ends {
            e.truncate(b.len() + 1); e.push(y);
            if valid(&e) { return true; }
            for &z in &ends { e.truncate(b.len() + 2); e.push(z); if valid(&e) { return true; } }
        }
    }
    false
}
fn utf8(b: &[u8], n: &mut u64) {
    *n += 1;
    match std::str::from_utf8(b) {
        Ok(t) => assert!(valid(b) && t.as_bytes() == b && t.len() == b.len()),
        Err(e) => {
            let k = e.valid_up_to();
            assert!(!valid(b) && valid(&b[..k]) && (k + 1..=b.len()).all(|j| !valid(&b[..j])), "{b:x?}");
            assert_eq!(e.error_len().is_none(), completable(b), "{b:x?}");
            if let Some(l) = e.error_len() { assert!((1..=3).contains(&l) && k + l <= b.len()); }
        }
    }
}
struct Rng(u64);
impl Rng { fn next(&mut self, n: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 % n as u64) as usize } }

fn texts() {
    let mut n = 0;
    utf8(&[], &mut n);
    for a in 0..=255u8 { utf8(&[a], &mut n); for b in 0..=255u8 { utf8(&[a, b], &mut n); for c in 0..=255u8 { utf8(&[a, b, c], &mut n); } } }
    let edge = [0u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    for a in edge { for b in edge { for c in edge { for d in edge { utf8(&[a, b, c, d], &mut n); utf8(&[b'x', a, b, c, d], &mut n); } } } }
    let mut r = Rng(88172645463325252);
    for _ in 0..2_000_000 { let l = 4 + r.next(6); let b: Vec<u8> = (0..l).map(|_| edge[r.next(edge.len())]).collect(); utf8(&b, &mut n); }
    println!("from_utf8: {n} byte strings");
}
/// overlay/addr.inc
fn addresses() {
    let mut n = 0u64;
    let mut r = Rng(362436069362436069);
    let chars = ['a', '\u{7f}', 'é', '\u{7ff}', 'あ', '\u{ffff}', '𝄞', '\u{10ffff}', '\n'];
    for _ in 0..20_000 {
        let t: String = (0..r.next(7)).map(|_| chars[r.next(chars.len())]).collect();
        let b = t.as_bytes();
        assert!(b.as_ptr() == t.as_ptr() && b.len() == t.len());
        // vstd's is_char_boundary: a place where a text ends
        let at = |i: usize| i <= b.len() && valid(&b[..i]);
        for lo in 0..=b.len() + 1 {
            assert_eq!(t.is_char_boundary(lo), at(lo));
            match t.split_at_checked(lo) { Some((p, q)) => assert!(at(lo) && p.as_bytes() == &b[..lo] && q.as_bytes() == &b[lo..] && q.as_ptr() as usize == t.as_ptr() as usize + lo && p.as_ptr() == t.as_ptr()), None => assert!(!at(lo)) }
            assert_eq!(t.get(lo..).is_some(), at(lo));
            for hi in 0..=b.len() + 1 {
                let ok = lo <= hi && at(lo) && at(hi);
                match t.get(lo..hi) { Some(p) => assert!(ok && p.as_bytes() == &b[lo..hi] && p.as_ptr() as usize == t.as_ptr() as usize + lo), None => assert!(!ok) }
                n += 1;
            }
        }
    }
    fn slices<T>(v: &[T], n: &mut u64) {
        let s = std::mem::size_of::<T>();
        let a = v.as_ptr() as usize;
        let range = v.as_ptr_range();
        assert!(range.start as usize == a && range.end as usize == a + v.len() * s);
        for lo in 0..=v.len() + 1 {
            match v.split_at_checked(lo) { Some((p, q)) => assert!(p.len() == lo && q.len() == v.len() - lo && p.as_ptr() as usize == a && q.as_ptr() as usize == a + lo * s), None => assert!(lo > v.len()) }
            for hi in 0..=v.len() + 1 {
                let ok = lo <= hi && hi <= v.len();
                match v.get(lo..hi) {
                    Some(p) => {
                        assert!(ok && p.len() == hi - lo && p.as_ptr() as usize == a + lo * s);
                        let (x, y) = (p.as_ptr(), v.as_ptr());
                        assert!((x == y) == (x as usize == y as usize) && (x < y) == ((x as usize) < y as usize) && x.partial_cmp(&y) == Some((x as usize).cmp(&(y as usize))));
                        assert_eq!(range.contains(&x), (range.start as usize) <= x as usize && (x as usize) < range.end as usize);
                        assert_eq!((range.start..=range.end).contains(&x), (range.start as usize) <= x as usize && x as usize <= range.end as usize);
                    }
                    None => assert!(!ok),
                }
                *n += 1;
            }
        }
    }
    for l in 0..20 { slices(&vec![0u8; l], &mut n); slices(&vec![0u64; l], &mut n); slices(&vec![(); l], &mut n); slices(&vec![[0u16; 3]; l], &mut n); slices(&vec![[0u64; 0]; l], &mut n); }
    println!("addresses and parts: {n} cases");
}
/// overlay/vec.inc, alloc.inc, memfns.inc, std.inc
fn storage() {
    let mut n = 0u64;
    fn one<T: Default + Clone>(n: &mut u64) {
        let s = std::mem::size_of::<T>();
        let v = Vec::<T>::new();
        assert!(v.len() == 0 && (s != 0 || v.capacity() == usize::MAX));
        for c in [0usize, 1, 2, 3, 7, 8, 9, 100, 4095, 4096] {
            let mut v = Vec::<T>::with_capacity(c);
            assert!(v.len() == 0 && v.capacity() >= c);
            let (p, cap) = (v.as_ptr(), v.capacity());
            v.resize(c, T::default());
            assert!(v.as_ptr() == p && v.capacity() == cap && v.len() == c);
            for k in [c + 1, c, c / 2, 0] { let l = v.len(); v.truncate(k); assert!(v.as_ptr() == p && v.capacity() == cap && v.len() == l.min(k)); }
            v.resize(c, T::default());
            v.clear();
            assert!(v.as_ptr() == p && v.capacity() == cap && v.is_empty());
            *n += 1;
        }
        let mut fits = true;
        for c in (0..64).map(|i| 1usize << i).chain([usize::MAX]) {
            match Layout::array::<T>(c) { Ok(l) => { assert!(fits); assert!(l.size() == c * s && l.align() == std::mem::align_of::<T>()) } Err(_) => fits = false }
            *n += 1;
        }
        let dangling = std::ptr::NonNull::<T>::dangling().as_ptr();
        assert!(!dangling.is_null() && dangling as usize % std::mem::align_of::<T>() == 0);
        assert!(std::mem::size_of::<[T; 5]>() == 5 * s);
    }
    one::<u8>(&mut n); one::<u64>(&mut n); one::<()>(&mut n); one::<[u16; 3]>(&mut n); one::<String>(&mut n); one::<[u64; 0]>(&mut n); one::<Box<u8>>(&mut n);
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    struct K(u8, u8);
    impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
    for a in 0..3 { for b in 0..3 {
        let (x, y) = (K(a, 0), K(b, 1));
        // of equals, `min` is the first and `max` the second
        assert_eq!(std::cmp::min(x, y), if y < x { y } else { x });
        assert_eq!(std::cmp::max(x, y), if y < x { x } else { y });
        n += 1;
    } }
    let mut d = Some(3);
    assert!(std::mem::replace(&mut d, None) == Some(3) && d.is_none() && d.replace(4).is_none() && d == Some(4) && std::mem::take(&mut d) == Some(4) && d.is_none());
    let mut v = vec![1];
    v.extend(std::iter::once(2)); v.extend(Some(3)); v.extend(None::<i32>); v.extend([4]);
    assert_eq!(v, [1, 2, 3, 4]);
    let c = std::sync::OnceLock::new();
    assert!(c.get().is_none() && c.set(1).is_ok() && c.get() == Some(&1) && c.set(2) == Err(2) && c.get() == Some(&1));
    println!("vectors, layouts, cells and the like: {n} cases");
}
fn main() { texts(); addresses(); storage(); }
