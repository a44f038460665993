//! C17: the provided methods of buffer writers, over a buffer with guard cells around it.
use engine::*;
use parcom_sequence_core::BufferWriter;
use std::cell::RefCell;
use std::fmt::Debug;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}
trait Item: Debug + Clone {
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
}
#[derive(Debug)]
struct Boxed(Box<u32>, bool);
impl Clone for Boxed {
    fn clone(&self) -> Self {
        Boxed(self.0.clone(), false)
    }
}
impl Item for Boxed {
    fn make(id: u32) -> Self {
        Boxed(Box::new(id), true)
    }
    fn id(&self) -> u32 {
        *self.0
    }
}
impl Drop for Boxed {
    fn drop(&mut self) {
        if self.1 {
            DROPS.with(|d| d.borrow_mut().push(*self.0));
        }
    }
}
impl Item for u8 {
    fn make(id: u32) -> u8 {
        id as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Item for (u32, u64) {
    fn make(id: u32) -> Self {
        (id, !(id as u64))
    }
    fn id(&self) -> u32 {
        if self.1 == !(self.0 as u64) {
            self.0
        } else {
            9999
        }
    }
}
#[derive(Debug, Clone)]
struct Unit;
impl Item for Unit {
    fn make(_: u32) -> Self {
        Unit
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(0));
    }
}
const GUARD: usize = 3;
struct W<T> {
    cells: Vec<MaybeUninit<T>>,
    cap: usize,
    len: usize,
    sets: usize,
}
impl<T> W<T> {
    fn new(cap: usize) -> Self {
        let mut cells: Vec<MaybeUninit<T>> = Vec::with_capacity(cap + 2 * GUARD);
        unsafe {
            (cells.as_mut_ptr() as *mut u8).write_bytes(0x5c, (cap + 2 * GUARD) * std::mem::size_of::<T>());
            cells.set_len(cap + 2 * GUARD);
        }
        W { cells, cap, len: 0, sets: 0 }
    }
    fn guards(&self) -> bool {
        let n = GUARD * std::mem::size_of::<T>();
        let all = self.cells.len() * std::mem::size_of::<T>();
        let p = self.cells.as_ptr() as *const u8;
        (0..n).chain(all - n..all).all(|k| unsafe { *p.add(k) } == 0x5c)
    }
}
impl<T> BufferWriter for W<T> {
    type Segment = [T];
    type Item = T;
    type Result = Self;
    type Error = ();
    fn capacity(&self) -> usize {
        self.cap
    }
    fn len(&self) -> usize {
        self.len
    }
    fn as_ptr(&self) -> *const T {
        unsafe { self.cells.as_ptr().add(GUARD) as *const T }
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        unsafe { self.cells.as_mut_ptr().add(GUARD) as *mut T }
    }
    unsafe fn set_len(&mut self, n: usize) {
        self.sets += 1;
        self.len = n;
    }
    fn advance(self) -> Self {
        self
    }
    fn cancel(self, _: ()) -> Self {
        self
    }
}
#[derive(Debug, Clone, Copy)]
enum Op {
    Push,
    Shrink(usize),
    Change(usize),
    Spare(usize),
}
fn go<T: Item>(cap: usize, ops: &[Op]) -> Result<(), String> {
    let zst = std::mem::size_of::<T>() == 0;
    let counted = std::mem::needs_drop::<T>();
    DROPS.with(|d| d.borrow_mut().clear());
    let mut w: W<T> = W::new(cap);
    let mut m: Vec<u32> = vec![];
    let mut gone: Vec<u32> = vec![]; // expected drops
    let mut next = 1;
    for (k, op) in ops.iter().enumerate() {
        let at = |s: String| format!("operation {k}, {op:?}: {s}");
        match *op {
            Op::Push => {
                let id = if zst { 0 } else if std::mem::size_of::<T>() == 1 { next % 190 } else { next };
                next += 1;
                match w.push_item(T::make(id)) {
                    Ok(()) if m.len() < cap => m.push(id),
                    Err(i) if m.len() == cap => {
                        if i.id() != id {
                            return Err(at("another item came back".into()));
                        }
                        gone.push(id);
                    }
                    r => return Err(at(format!("returned {:?} with {} of {cap} cells written", r.map_err(|i| i.id()), m.len()))),
                }
            }
            Op::Shrink(n) => {
                let r = catch_unwind(AssertUnwindSafe(|| w.shrink_to(n)));
                if r.is_ok() != (n <= m.len()) {
                    return Err(at(format!("{} with {} items", if r.is_ok() { "accepted" } else { "refused" }, m.len())));
                }
                if n < m.len() {
                    gone.extend(m.drain(n..));
                }
            }
            Op::Change(n) => {
                if !counted && n < m.len() && !zst {
                    w.as_mut_slice()[n] = T::make(200);
                    m[n] = 200;
                }
            }
            Op::Spare(n) => {
                let from = unsafe { (w.cells.as_ptr() as *const T).add(GUARD + m.len()) };
                let s = w.spare_capacity();
                if s.len() != cap - m.len() || s.as_ptr() as *const T != from {
                    return Err(at(format!("{} spare cells of {cap} with {} written, or not the unused ones", s.len(), m.len())));
                }
                let n = n.min(s.len());
                for c in s[..n].iter_mut() {
                    let id = if zst { 0 } else if std::mem::size_of::<T>() == 1 { next % 190 } else { next };
                    next += 1;
                    c.write(T::make(id));
                    m.push(id);
                }
                unsafe { w.set_len(m.len()) };
            }
        }
        if w.len != m.len() {
            return Err(at(format!("length {} with {} items", w.len, m.len())));
        }
        let a: Vec<u32> = w.as_slice().iter().map(|i| i.id()).collect();
        let b: Vec<u32> = w.as_mut_slice().iter().map(|i| i.id()).collect();
        if a != m || b != m {
            return Err(at(format!("shows {a:?} / {b:?}, not {m:?}")));
        }
        if !w.guards() {
            return Err(at("wrote outside of the buffer".into()));
        }
        if counted {
            let mut d = DROPS.with(|d| d.borrow().clone());
            let mut g = gone.clone();
            d.sort();
            g.sort();
            if d != g {
                return Err(at(format!("dropped {d:?}, not {g:?}")));
            }
        }
    }
    let n = w.len;
    for i in 0..n {
        unsafe { w.cells[GUARD + i].assume_init_drop() };
    }
    Ok(())
}
fn writers(rng: &mut Rng, _: Mode) -> R {
    let cap = rng.near(25, 70000).map(|k| k + rng.below(8)).unwrap_or_else(|| rng.few(6).min(300));
    let ops: Vec<Op> = (0..1 + if cap > 6 { rng.below(if cap > 5000 { 12 } else { 2 * cap.min(300) + 14 }) } else { rng.below(14) })
        .map(|_| match rng.below(8) {
            0..=3 => Op::Push,
            4 => Op::Shrink(rng.upto(cap + 2)),
            5 => Op::Shrink(rng.below(2)),
            6 => Op::Change(rng.below(cap + 1)),
            _ if cap > 300 && rng.chance(1, 2) => Op::Spare(cap - rng.below(10)),
            _ => Op::Spare(if cap > 6 && rng.chance(1, 2) { rng.below(cap + 1) } else { rng.below(3) }),
        })
        .collect();
    let ty = rng.below(4);
    let what = format!("{} cells of {}: {ops:?}", cap, ["u8", "Box", "(u32, u64)", "()"][ty]);
    trace(&what);
    match ty {
        0 => go::<u8>(cap, &ops),
        1 => go::<Boxed>(cap, &ops),
        2 => go::<(u32, u64)>(cap, &ops),
        _ => go::<Unit>(cap, &ops),
    }
    .map_err(|m| format!("{what}: {m}"))
}
fn main() {
    engine::main(&[fam("C17", "writers", writers)]);
}
