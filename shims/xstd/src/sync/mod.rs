pub use std::sync::*;
pub use self::mutex::{Mutex, MutexGuard};
pub use self::mutex::ON_BLOCKED as ON_BLOCKED_LOCK;
pub mod atomic;
mod arc;
pub use self::arc::{Arc, Inner as ArcInner, Pool as ArcPool};
pub use self::arc::{Wake, Weak};
pub use self::once::{LazyLock, OnceLock};
mod once;
mod mutex {
    use std::cell::UnsafeCell;
    use std::sync::{LockResult, TryLockResult, TryLockError};
    use std::ops::{Deref, DerefMut};
    /// What the holder of a lock does while another thread waits for it.
    pub static mut ON_BLOCKED: Option<fn()> = None;
    pub struct Mutex<T: ?Sized> { locked: std::cell::Cell<bool>, v: UnsafeCell<T> }
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
    impl<T: ?Sized> std::fmt::Debug for Mutex<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T> }
    impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Mutex { locked: std::cell::Cell::new(false), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) } }
    impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Mutex::new(v) } }
    impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
    impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            xworld::interfere();
            if self.locked.get() { if let Some(f) = unsafe { ON_BLOCKED } { f() } }
            assert!(!self.locked.get(), "deadlock: lock already held by this thread");
            self.locked.set(true);
            Ok(MutexGuard { m: self })
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            xworld::interfere();
            if self.locked.get() { return Err(TryLockError::WouldBlock); }
            self.locked.set(true);
            Ok(MutexGuard { m: self })
        }
        pub fn is_poisoned(&self) -> bool { false }
        pub fn clear_poison(&self) {}
        pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> { fn drop(&mut self) { self.m.locked.set(false); } }
}

