//! The standard library with loom's synchronisation in the place of its own. The crates of /repo are compiled against
//! this one instead of `std`, their source unchanged.
//!
//! loom takes a sequentially consistent access for an acquiring and releasing one; each is put between two sequentially
//! consistent fences here, so that it is no weaker than the language has it.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub use loom::sync::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use loom::sync::atomic::fence;
        use loom::sync::atomic as l;
        fn fenced<R>(o: &[Ordering], f: impl FnOnce() -> R) -> R {
            let sc = o.contains(&Ordering::SeqCst);
            if sc {
                fence(Ordering::SeqCst);
            }
            let r = f();
            if sc {
                fence(Ordering::SeqCst);
            }
            r
        }
        macro_rules! atomic {
            ($n:ident, $t:ty, $($f:ident)*) => {
                #[derive(Debug)]
                pub struct $n(l::$n);
                impl $n {
                    pub fn new(v: $t) -> Self { $n(l::$n::new(v)) }
                    pub fn load(&self, o: Ordering) -> $t { fenced(&[o], || self.0.load(o)) }
                    pub fn store(&self, v: $t, o: Ordering) { fenced(&[o], || self.0.store(v, o)) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { fenced(&[o], || self.0.swap(v, o)) }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { fenced(&[o, p], || self.0.compare_exchange(a, b, o, p)) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { fenced(&[o, p], || self.0.compare_exchange(a, b, o, p)) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { fenced(&[o, p], || self.0.fetch_update(o, p, f)) }
                    pub fn get_mut(&mut self) -> &mut $t { unimplemented!("loomed: get_mut") }
                    $(pub fn $f(&self, v: $t, o: Ordering) -> $t { fenced(&[o], || self.0.$f(v, o)) })*
                }
                impl Default for $n { fn default() -> Self { Self::new(Default::default()) } }
            };
        }
        atomic!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
        atomic!(AtomicUsize, usize, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        atomic!(AtomicIsize, isize, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        atomic!(AtomicU8, u8, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        atomic!(AtomicU16, u16, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        atomic!(AtomicU32, u32, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        atomic!(AtomicU64, u64, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub use loom::thread::{current, park, spawn, yield_now, JoinHandle, Thread};
}
pub mod hint {
    pub use ::std::hint::*;
    pub use loom::hint::spin_loop;
}
