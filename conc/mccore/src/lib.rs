//! Stands in for `core` in a copy of the library (`extern crate mccore as core`): the same, but
//! every operation on an atomic first asks the scheduler (HOOK) whether to go on
#![no_std]
pub use core::*;

pub mod hook {
    use core::sync::atomic::{AtomicUsize, Ordering};
    static HOOK: AtomicUsize = AtomicUsize::new(0);
    /// f(true): this thread waits for another one
    pub fn set(f: fn(bool)) {
        HOOK.store(f as usize, Ordering::SeqCst);
    }
    pub fn point(waits: bool) {
        let f = HOOK.load(Ordering::SeqCst);
        if f != 0 {
            let f: fn(bool) = unsafe { core::mem::transmute(f) };
            f(waits);
        }
    }
}

pub mod hint {
    pub use core::hint::*;
    pub fn spin_loop() {
        crate::hook::point(true);
    }
}

pub mod sync {
    pub use core::sync::*;
    pub mod atomic {
        pub use core::sync::atomic::Ordering;
        use crate::hook::point;
        pub fn fence(_: Ordering) {
            point(false);
        }
        pub fn compiler_fence(_: Ordering) {
            point(false);
        }
        const O: Ordering = Ordering::SeqCst;
        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[derive(Debug, Default)]
                #[repr(transparent)]
                pub struct $n(core::sync::atomic::$n);
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(core::sync::atomic::$n::new(v))
                    }
                    pub fn load(&self, _: Ordering) -> $t {
                        point(false);
                        self.0.load(O)
                    }
                    pub fn store(&self, v: $t, _: Ordering) {
                        point(false);
                        self.0.store(v, O)
                    }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t {
                        point(false);
                        self.0.swap(v, O)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        point(false);
                        let r = self.0.compare_exchange(a, b, O, O);
                        if r.is_err() {
                            point(true);
                        }
                        r
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, x, y)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut v = self.load(O);
                        while let Some(n) = f(v) {
                            match self.compare_exchange(v, n, O, O) {
                                Ok(r) => return Ok(r),
                                Err(r) => v = r,
                            }
                        }
                        Err(v)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    common!(@ops $t, fetch_and, fetch_nand, fetch_or, fetch_xor);
                }
            };
            (@ops $t:ty, $($f:ident),*) => { $(
                pub fn $f(&self, v: $t, _: Ordering) -> $t {
                    point(false);
                    self.0.$f(v, O)
                }
            )* };
        }
        macro_rules! int {
            ($n:ident, $t:ty) => {
                common!($n, $t);
                impl $n {
                    common!(@ops $t, fetch_add, fetch_sub, fetch_max, fetch_min);
                }
            };
        }
        common!(AtomicBool, bool);
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicUsize, usize);
        int!(AtomicI8, i8);
        int!(AtomicI16, i16);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);
        int!(AtomicIsize, isize);
    }
}
