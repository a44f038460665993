//! C15: the small vector against a plain vector, with an allocator that checks what it is asked.
use engine::*;
use parcom_internals::ShortVec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

/// while it is on: memory between guard bytes, moved on every reallocation, layouts checked
struct Checked;
struct Table(UnsafeCell<[(usize, usize, usize); 2048]>);
unsafe impl Sync for Table {}
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
static TABLE: Table = Table(UnsafeCell::new([(0, 0, 0); 2048]));
#[global_allocator]
static A: Checked = Checked;
const WRONG: [&str; 5] = [
    "",
    "an allocation of no bytes was asked for",
    "memory was given back with another layout than it was got with",
    "bytes outside of the allocation were written",
    "too many allocations",
];
fn guard(l: Layout) -> usize {
    l.align().max(64)
}
unsafe fn real(l: Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + 2 * guard(l), l.align())
}
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return System.alloc(l);
        }
        if l.size() == 0 {
            BAD.store(1, Relaxed);
        }
        let g = guard(l);
        let p = System.alloc(real(l));
        p.write_bytes(0xc3, l.size() + 2 * g);
        let p = p.add(g);
        p.write_bytes(0xa5, l.size());
        let t = &mut *TABLE.0.get();
        match t.iter_mut().find(|e| e.0 == 0) {
            Some(e) => *e = (p as usize, l.size(), l.align()),
            None => BAD.store(4, Relaxed),
        }
        LIVE.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let t = &mut *TABLE.0.get();
        let Some(e) = t.iter_mut().find(|e| e.0 == p as usize && e.0 != 0) else {
            return System.dealloc(p, l); // got while the checker was off; anything else ends the process
        };
        let (_, size, align) = *e;
        *e = (0, 0, 0);
        LIVE.fetch_sub(1, Relaxed);
        if (size, align) != (l.size(), l.align()) {
            BAD.store(2, Relaxed);
        }
        let l = Layout::from_size_align_unchecked(size, align);
        let g = guard(l);
        for k in 0..g {
            if *p.sub(k + 1) != 0xc3 || *p.add(size + k) != 0xc3 {
                BAD.store(3, Relaxed);
            }
        }
        p.write_bytes(0xdd, size);
        System.dealloc(p.sub(g), real(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let known = (*TABLE.0.get()).iter().find(|e| e.0 == p as usize && e.0 != 0).copied();
        let Some((_, size, _)) = known else {
            return System.realloc(p, l, n);
        };
        let on = ON.swap(true, Relaxed);
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, size.min(n));
        self.dealloc(p, l);
        ON.store(on, Relaxed);
        q
    }
}
thread_local! {
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static MADE: Cell<u32> = const { Cell::new(0) };
}
/// the checker is off while this runs
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let on = ON.swap(false, Relaxed);
    let r = f();
    ON.store(on, Relaxed);
    r
}
fn dropped(id: u32) {
    quiet(|| {
        DROPS.with(|d| {
            let mut d = d.borrow_mut();
            if (id as usize) < d.len() {
                d[id as usize] += 1;
            } else {
                d.push(1000); // not an item
            }
        })
    });
}
trait Made: Debug {
    fn make(id: u32) -> Self;
    fn id(&self) -> Option<u32>;
    fn change(&mut self, _id: u32) {}
    const COUNTED: bool;
}
impl Made for u8 {
    fn make(id: u32) -> u8 {
        id as u8
    }
    fn id(&self) -> Option<u32> {
        Some(*self as u32)
    }
    fn change(&mut self, id: u32) {
        *self = id as u8
    }
    const COUNTED: bool = false;
}
#[derive(Debug)]
struct Boxed(Box<u32>);
impl Made for Boxed {
    fn make(id: u32) -> Self {
        Boxed(Box::new(id))
    }
    fn id(&self) -> Option<u32> {
        Some(*self.0)
    }
    const COUNTED: bool = true;
}
impl Drop for Boxed {
    fn drop(&mut self) {
        dropped(*self.0)
    }
}
#[derive(Debug)]
#[repr(align(64))]
struct Wide(u32, [u8; 70]);
impl Made for Wide {
    fn make(id: u32) -> Self {
        Wide(id, [id as u8; 70])
    }
    fn id(&self) -> Option<u32> {
        (self as *const _ as usize % 64 == 0 && self.1 == [self.0 as u8; 70]).then_some(self.0)
    }
    const COUNTED: bool = true;
}
impl Drop for Wide {
    fn drop(&mut self) {
        dropped(self.0)
    }
}
/// zero-sized: only how many there are can be seen
#[derive(Debug)]
struct Unit;
impl Made for Unit {
    fn make(_: u32) -> Self {
        Unit
    }
    fn id(&self) -> Option<u32> {
        None
    }
    const COUNTED: bool = false;
}
impl Drop for Unit {
    fn drop(&mut self) {
        MADE.with(|m| m.set(m.get() + 1));
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Push,
    Pushes(usize),
    Pops(usize),
    Pop,
    Reserve(usize),
    Exact(usize),
    Write(usize),
    Move,
}
fn ops(rng: &mut Rng) -> Vec<Op> {
    let n = 1 + rng.few(24).min(900);
    let bias = rng.below(4);
    (0..n)
        .map(|_| match rng.below(12) {
            0 if rng.chance(1, 24) => Op::Pushes(rng.few(60)),
            0..=4 => Op::Push,
            5 if bias == 0 => Op::Push,
            5..=7 if bias == 1 && n > 60 => Op::Push,
            5 if rng.chance(1, 24) => Op::Pops(rng.few(60)),
            5..=7 => Op::Pop,
            8 => Op::Reserve(rng.upto(12)),
            9 => Op::Exact(rng.upto(12)),
            10 => Op::Write(rng.below(8)),
            _ => Op::Move,
        })
        .collect()
}
fn same<T: Made, const N: usize>(v: &mut ShortVec<T, N>, want: &[u32]) -> Result<(), String> {
    let zst = std::mem::size_of::<T>() == 0;
    let look = |s: &[T]| quiet(|| s.iter().map(|i| i.id().unwrap_or(0)).collect::<Vec<u32>>());
    let exp: Vec<u32> = quiet(|| want.iter().map(|w| if zst { 0 } else { *w }).collect());
    let a = look(v.as_slice());
    let b = look(v.as_slice_mut());
    if a != exp || b != exp {
        return Err(quiet(|| format!("holds {a:?} / {b:?}, not {exp:?}")));
    }
    if v.is_empty() != want.is_empty() {
        return Err("is_empty is wrong".into());
    }
    if v.as_ptr() != v.as_slice().as_ptr() {
        return Err("as_ptr is not where the slice is".into());
    }
    Ok(())
}
fn go<T: Made, const N: usize>(cap: Option<usize>, ops: &[Op]) -> Result<(), String> {
    let zst = std::mem::size_of::<T>() == 0;
    let total: usize = ops.iter().map(|o| match o { Op::Push => 1, Op::Pushes(n) => *n, _ => 0 }).sum();
    let mut model: Vec<u32> = Vec::with_capacity(total);
    let mut next = 0;
    let mut gone = 0; // zero-sized items dropped by us
    DROPS.with(|d| {
        d.borrow_mut().clear();
        d.borrow_mut().resize(total, 0);
    });
    MADE.with(|m| m.set(0));
    BAD.store(0, Relaxed);
    let live = LIVE.load(Relaxed);
    ON.store(true, Relaxed);
    let mut v: ShortVec<T, N> = match cap {
        Some(c) => ShortVec::with_capacity(c),
        None if N == 1 => Default::default(),
        None => ShortVec::new(),
    };
    same(&mut v, &model)?;
    for (k, op) in ops.iter().enumerate() {
        let at = |m: String| quiet(|| format!("after {k} operations, {op:?}: {m}"));
        match *op {
            Op::Push | Op::Pushes(_) => for _ in 0..if let Op::Pushes(n) = *op { n } else { 1 } {
                let id = if std::mem::size_of::<T>() == 1 { next % 256 } else { next };
                v.push(T::make(id));
                model.push(id);
                next += 1;
            }
            Op::Pop | Op::Pops(_) => for _ in 0..if let Op::Pops(n) = *op { n } else { 1 } {
                let got = v.pop();
                let want = model.pop();
                let ok = match (&got, want) {
                    (None, None) => true,
                    (Some(g), Some(w)) => zst || g.id() == Some(w),
                    _ => false,
                };
                if got.is_some() {
                    gone += 1;
                }
                if !ok {
                    return Err(at(quiet(|| format!("popped {:?}, not {want:?}", got.as_ref().map(|g| g.id())))));
                }
            }
            Op::Reserve(n) => v.reserve(n),
            Op::Exact(n) => v.reserve_exact(n),
            Op::Write(n) => {
                if n < model.len() && !T::COUNTED && !zst {
                    v.as_slice_mut()[n].change(77);
                    model[n] = 77;
                }
            }
            Op::Move => {
                let w = Box::new(v);
                v = *w;
            }
        }
        same(&mut v, &model).map_err(at)?;
        if zst && MADE.with(|m| m.get()) != gone {
            return Err(at("dropped items it should hold".into()));
        }
        if T::COUNTED && model.iter().any(|i| DROPS.with(|d| d.borrow()[*i as usize]) != 0) {
            return Err(at("dropped items it should hold".into()));
        }
    }
    drop(v);
    ON.store(false, Relaxed);
    if zst && MADE.with(|m| m.get()) != next {
        return Err(format!("{next} items were made, {} dropped", MADE.with(|m| m.get())));
    }
    if T::COUNTED {
        let d = DROPS.with(|d| d.borrow().clone());
        if let Some(i) = (0..d.len()).find(|i| d[*i] != (*i < next as usize) as u32) {
            return Err(format!("item {i} was dropped {} times", d[i]));
        }
    }
    if LIVE.load(Relaxed) != live {
        return Err(format!("{} allocations were not given back", LIVE.load(Relaxed) as isize - live as isize));
    }
    let b = BAD.swap(0, Relaxed);
    if b != 0 {
        return Err(WRONG[b].into());
    }
    Ok(())
}
fn vectors(rng: &mut Rng, _: Mode) -> R {
    let cap = rng.chance(1, 2).then(|| rng.upto(9));
    let mut o = ops(rng);
    let (ty, n) = (rng.below(4), rng.below(4));
    // the table of allocations is limited
    let mut left = if ty == 1 { 1000 } else { 12000 };
    for op in &mut o {
        if let Op::Pushes(n) = op {
            *n = (*n).min(left).min(6000);
            left -= *n;
        }
    }
    let what = format!("{} with room for {} inside, {}: {o:?}", ["u8", "Box", "64-aligned", "()"][ty], [0, 1, 2, 5][n], match cap {
        Some(c) => format!("with_capacity({c})"),
        None => "new()".into(),
    });
    trace(&what);
    let r = match (ty, n) {
        (0, 0) => go::<u8, 0>(cap, &o),
        (0, 1) => go::<u8, 1>(cap, &o),
        (0, 2) => go::<u8, 2>(cap, &o),
        (0, _) => go::<u8, 5>(cap, &o),
        (1, 0) => go::<Boxed, 0>(cap, &o),
        (1, 1) => go::<Boxed, 1>(cap, &o),
        (1, 2) => go::<Boxed, 2>(cap, &o),
        (1, _) => go::<Boxed, 5>(cap, &o),
        (2, 0) => go::<Wide, 0>(cap, &o),
        (2, 1) => go::<Wide, 1>(cap, &o),
        (2, 2) => go::<Wide, 2>(cap, &o),
        (2, _) => go::<Wide, 5>(cap, &o),
        (_, 0) => go::<Unit, 0>(cap, &o),
        (_, 1) => go::<Unit, 1>(cap, &o),
        (_, 2) => go::<Unit, 2>(cap, &o),
        (_, _) => go::<Unit, 5>(cap, &o),
    };
    ON.store(false, Relaxed);
    let b = BAD.swap(0, Relaxed);
    match r {
        Ok(()) => Ok(()),
        Err(m) => Err(format!("{what}: {m}{}", if b != 0 { format!("; {}", WRONG[b]) } else { String::new() })),
    }
}
fn main() {
    engine::main(&[fam("C15", "vectors", vectors)]);
}
