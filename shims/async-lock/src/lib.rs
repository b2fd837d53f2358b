//! Contract of `async_lock::OnceCell`: the initializer runs exactly once, before the value is visible.
use std::cell::Cell;
pub struct OnceCell<T> { state: Cell<u8>, p: Cell<*mut T> }
unsafe impl<T> Sync for OnceCell<T> {}
unsafe impl<T> Send for OnceCell<T> {}
impl<T> OnceCell<T> {
    pub const fn new() -> Self { OnceCell { state: Cell::new(0), p: Cell::new(std::ptr::null_mut()) } }
    pub fn get(&self) -> Option<&T> { if self.state.get() == 2 { Some(unsafe { &*self.p.get() }) } else { None } }
    pub fn is_initialized(&self) -> bool { self.state.get() == 2 }
    fn set(&self, t: T) {
        let p = <T as xworld::Place>::place();
        unsafe { std::ptr::write(p, t); }
        self.p.set(p);
        self.state.set(2);
    }
    fn begin(&self) { assert!(self.state.get() == 0, "OnceCell: re-entrant initialization (deadlock)"); self.state.set(1); }
    pub fn get_or_init_blocking(&self, f: impl FnOnce() -> T) -> &T {
        if self.state.get() != 2 { self.begin(); let t = f(); self.set(t); }
        unsafe { &*self.p.get() }
    }
    pub fn get_or_try_init_blocking<E>(&self, f: impl FnOnce() -> Result<T, E>) -> Result<&T, E> {
        if self.state.get() != 2 {
            self.begin();
            match f() { Ok(t) => self.set(t), Err(e) => { self.state.set(0); return Err(e); } }
        }
        Ok(unsafe { &*self.p.get() })
    }
}
