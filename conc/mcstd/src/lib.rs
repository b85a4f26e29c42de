//! Stands in for `std` in a copy of the library: atomics as in mccore, locks that ask the
//! scheduler while they wait
pub use std::*;
pub use mccore::hint;
pub mod sync {
    pub use mccore::sync::atomic;
    pub use std::sync::*;
    use mccore::hook::point;
    use std::ops::Deref;

    #[derive(Debug, Default)]
    pub struct Mutex<T>(std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex(std::sync::Mutex::new(v))
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point(false);
            loop {
                match self.0.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => point(true),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point(false);
            self.0.try_lock()
        }
    }
    #[derive(Debug, Default)]
    pub struct RwLock<T>(std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock(std::sync::RwLock::new(v))
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            point(false);
            loop {
                match self.0.try_read() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => point(true),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            point(false);
            loop {
                match self.0.try_write() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => point(true),
                }
            }
        }
    }
    #[derive(Debug, Default)]
    pub struct OnceLock<T>(std::sync::OnceLock<T>);
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock(std::sync::OnceLock::new())
        }
        pub fn get(&self) -> Option<&T> {
            point(false);
            self.0.get()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            point(false);
            self.0.set(v)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            point(false);
            self.0.get_or_init(f)
        }
    }
    pub struct LazyLock<T>(std::sync::LazyLock<T>);
    impl<T> LazyLock<T> {
        pub const fn new(f: fn() -> T) -> Self {
            LazyLock(std::sync::LazyLock::new(f))
        }
    }
    impl<T> Deref for LazyLock<T> {
        type Target = T;
        fn deref(&self) -> &T {
            point(false);
            &self.0
        }
    }
}
