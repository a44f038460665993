//! Families of cases, their runs and replays.

use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::Instant;

pub type R = Result<(), String>;

/// numbers and characters the code under test names (`VERIF_HINTS`): cases go near them now and then
fn hints() -> &'static (Vec<usize>, Vec<char>) {
    static H: std::sync::OnceLock<(Vec<usize>, Vec<char>)> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let s = std::env::var("VERIF_HINTS").unwrap_or_default();
        let (a, b) = s.split_once(';').unwrap_or((&s, ""));
        let nums: Vec<usize> = a.split(',').filter_map(|x| x.parse().ok()).collect();
        let of = |c: u32| [c.wrapping_sub(1), c, c + 1].into_iter().filter_map(char::from_u32).collect::<Vec<_>>();
        let chars = b.split(',').filter_map(|x| x.parse().ok()).chain(nums.iter().filter_map(|n| u32::try_from(*n).ok()));
        let chars = chars.filter(|c| *c < 0x110000).flat_map(of).collect();
        (nums, chars)
    })
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a number near one the code names, once in `den` times
    pub fn near(&mut self, den: usize, max: usize) -> Option<usize> {
        let h = &hints().0;
        if h.is_empty() || !self.chance(1, den) {
            return None;
        }
        let k = *self.pick(h);
        if k > max || k > 2000 && !self.chance(1, 8) {
            return None;
        }
        Some((k + self.below(3)).saturating_sub(1))
    }
    /// below `n`, or near a number the code names
    pub fn upto(&mut self, n: usize) -> usize {
        self.near(12, 70000).unwrap_or_else(|| self.below(n))
    }
    /// one of `v`, or a character the code names
    pub fn letter(&mut self, v: &[char]) -> char {
        let h = &hints().1;
        if !h.is_empty() && self.chance(1, 12) { *self.pick(h) } else { *self.pick(v) }
    }
    /// mostly below `n`, now and then much larger
    pub fn few(&mut self, n: usize) -> usize {
        if let Some(k) = self.near(25, 70000) {
            return if k < 5000 && self.chance(1, 4) { k * (2 + self.below(3)) } else { k };
        }
        match self.below(400) {
            0 => self.below(n * 600),
            1..=12 => self.below(n * 12),
            _ => self.below(n),
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// every difference counts
    All,
    /// only cases whose expected outcome is a fatal error count
    Fatal,
}

pub struct Family {
    pub prop: &'static str,
    pub name: &'static str,
    pub run: fn(&mut Rng, Mode) -> R,
    pub mode: Mode,
    /// cases per hundred cases asked for
    pub weight: u32,
}
pub fn fam(prop: &'static str, name: &'static str, run: fn(&mut Rng, Mode) -> R) -> Family {
    Family { prop, name, run, mode: Mode::All, weight: 100 }
}
pub fn slow(prop: &'static str, name: &'static str, weight: u32, run: fn(&mut Rng, Mode) -> R) -> Family {
    Family { prop, name, run, mode: Mode::All, weight }
}
pub fn fatal(prop: &'static str, name: &'static str, run: fn(&mut Rng, Mode) -> R) -> Family {
    Family { prop, name, run, mode: Mode::Fatal, weight: 100 }
}

fn seed_of(prop: &str, name: &str, seed: u64, case: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes().chain([0]).chain(name.bytes()).chain([0]) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h ^ seed.wrapping_mul(0xD1342543DE82EF95));
    let a = r.next();
    Rng(a ^ case.wrapping_mul(0x9E3779B97F4A7C15)).next()
}

fn one(f: &Family, seed: u64, case: u64) -> R {
    let s = seed_of(f.prop, f.name, seed, case);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.run)(&mut Rng(s), f.mode))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {m}"))
        }
    }
}

thread_local! {
    static TRACE: std::cell::RefCell<(u64, Option<String>)> = const { std::cell::RefCell::new((0, None)) };
}
/// records what the current case exercised: cases with equal records count once
pub fn trace<T: std::fmt::Debug>(t: &T) {
    let s = format!("{t:?}");
    TRACE.with(|x| {
        let mut x = x.borrow_mut();
        let mut h = x.0 ^ 0xcbf29ce484222325;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        x.0 = h | 1;
        if x.1.is_none() {
            x.1 = Some(s.chars().take(400).collect());
        }
    });
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(fams: &[Family]) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "run" => {
            let (prop, out, progress) = (&a[2], &a[3], &a[4]);
            let seed: u64 = a[5].parse().unwrap();
            let cases: u64 = a[6].parse().unwrap();
            let secs: f64 = a[7].parse().unwrap();
            let fs: Vec<&Family> = fams.iter().filter(|f| f.prop == prop).collect();
            let file = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(progress).unwrap();
            let start = Instant::now();
            let mut done = vec![0u64; fs.len()];
            let mut failure = None;
            let mut seen = std::collections::HashSet::new();
            let mut samples: Vec<String> = vec![];
            'all: for (i, f) in fs.iter().enumerate() {
                let n = (cases * f.weight as u64 / 100).max(1);
                let until = secs * (i + 1) as f64 / fs.len() as f64;
                for case in 0..n {
                    if start.elapsed().as_secs_f64() > until {
                        break;
                    }
                    let _ = file.write_all_at(format!("{:<24}|{:>12}|{:>12}\n", f.name, seed, case).as_bytes(), 0);
                    TRACE.with(|x| *x.borrow_mut() = (0, None));
                    let r = one(f, seed, case);
                    TRACE.with(|x| {
                        let x = x.borrow();
                        if x.0 != 0 && seen.insert((i, x.0)) && case == 3 {
                            samples.push(format!("{} seed {} case {}: {}", f.name, seed, case, x.1.clone().unwrap_or_default()));
                        }
                    });
                    if let Err(m) = r {
                    let m: String = if m.len() > 6000 { m.chars().take(3000).chain(" ... ".chars()).chain(m.chars().skip(m.chars().count() - 1000)).collect() } else { m };
                        failure = Some((f.name, case, m));
                        break 'all;
                    }
                    done[i] += 1;
                }
            }
            let mut j = String::from("{\"families\":{");
            for (i, f) in fs.iter().enumerate() {
                if i > 0 {
                    j.push(',');
                }
                j.push_str(&format!("{}:{}", esc(f.name), done[i]));
            }
            j.push_str("},\"failure\":");
            match failure {
                Some((n, c, m)) => j.push_str(&format!("{{\"family\":{},\"seed\":{},\"case\":{},\"message\":{}}}", esc(n), seed, c, esc(&m))),
                None => j.push_str("null"),
            }
            j.push_str(&format!(",\"distinct\":{},\"samples\":[{}]", seen.len(), samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
            j.push_str(&format!(",\"secs\":{:.3}}}\n", start.elapsed().as_secs_f64()));
            std::fs::File::create(out).unwrap().write_all(j.as_bytes()).unwrap();
        }
        "replay" => {
            let f = fams.iter().find(|f| f.prop == a[2] && f.name == a[3]).expect("family");
            match one(f, a[4].parse().unwrap(), a[5].parse().unwrap()) {
                Ok(()) => println!("holds"),
                Err(m) => {
                    println!("FAILS: {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => panic!("usage"),
    }
}
