//! Contract of `OnceLock` and `LazyLock`: the initializer runs exactly once, before the value is visible.
use std::cell::Cell;
pub struct OnceLock<T> { state: Cell<u8>, p: Cell<*mut T> }
unsafe impl<T> Sync for OnceLock<T> {}
unsafe impl<T> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { state: Cell::new(0), p: Cell::new(std::ptr::null_mut()) } }
    pub fn get(&self) -> Option<&T> { if self.state.get() == 2 { Some(unsafe { &*self.p.get() }) } else { None } }
    fn put(&self, t: T) {
        let p = <T as xworld::Place>::place();
        unsafe { std::ptr::write(p, t); }
        self.p.set(p);
        self.state.set(2);
    }
    pub fn set(&self, t: T) -> Result<(), T> { if self.state.get() != 0 { return Err(t); } self.put(t); Ok(()) }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        if self.state.get() != 2 {
            assert!(self.state.get() == 0, "re-entrant initialization (deadlock)");
            self.state.set(1);
            let t = f();
            self.put(t);
        }
        unsafe { &*self.p.get() }
    }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
pub struct LazyLock<T, F = fn() -> T> { c: OnceLock<T>, f: Cell<Option<F>> }
unsafe impl<T, F> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { c: OnceLock::new(), f: Cell::new(Some(f)) } }
    pub fn force(this: &Self) -> &T { this.c.get_or_init(|| (this.f.take().expect("poisoned"))()) }
}
impl<T, F: FnOnce() -> T> std::ops::Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }
