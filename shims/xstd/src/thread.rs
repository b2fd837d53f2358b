pub use std::thread::*;
/// The kept closure. (Its caller has a signature of its own, so that the verifier never confuses it with the
/// functions behind wakers.)
type Run = fn(*mut (), [u8; 3], u64);
static mut SPAWNED: Option<(Run, *mut ())> = None;
fn run<F: FnOnce() -> T, T>(p: *mut (), _: [u8; 3], _: u64) { unsafe { core::ptr::read(p as *mut F)(); } }
/// Runs the closure that was spawned last.
pub fn run_spawned() { let f = unsafe { SPAWNED.take() }; let (f, p) = f.expect("no thread has been spawned"); f(p, [0; 3], 0) }
/// Contract of `thread::Builder::spawn`: the closure runs on another thread. Here it is forgotten, or,
/// when a harness asks for it, kept until the harness runs it as ghost thread 1.
pub struct Builder;
pub struct JoinHandle<T>(core::marker::PhantomData<T>);
impl<T> JoinHandle<T> { pub fn thread(&self) -> &Self { self } }
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn name(self, _: String) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> crate::io::Result<JoinHandle<T>> {
        xworld::w().spawned += 1;
        if xworld::w().keep_spawned {
            unsafe { SPAWNED = Some((run::<F, T>, Box::into_raw(Box::new(f)) as *mut ())); }
        } else {
            core::mem::forget(f);
        }
        Ok(JoinHandle(core::marker::PhantomData))
    }
}
/// Other threads take their turn.
pub fn yield_now() { xworld::interfere() }
pub fn sleep(_: core::time::Duration) { xworld::interfere() }
pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> { Builder::new().spawn(f).unwrap() }

/// Contract of `thread_local!`: one value per thread, created on first use.
pub struct LocalKey<T: 'static> { ready: core::cell::UnsafeCell<[bool; 2]>, slots: fn() -> *mut [T; 2], init: fn() -> T }
unsafe impl<T> Sync for LocalKey<T> {}
impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T, slots: fn() -> *mut [T; 2]) -> Self { LocalKey { ready: core::cell::UnsafeCell::new([false; 2]), slots, init } }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        let tid = xworld::w().tid;
        let s = unsafe { &raw mut (*(self.slots)())[tid] };
        unsafe { if !(*self.ready.get())[tid] { let v = (self.init)(); core::ptr::write(s, v); (*self.ready.get())[tid] = true; } }
        f(unsafe { &*s })
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> core::result::Result<R, AccessError> { Ok(self.with(f)) }
}
#[derive(Debug)]
pub struct AccessError;
impl<T: 'static> LocalKey<core::cell::Cell<T>> {
    pub fn set(&'static self, v: T) { self.with(|c| c.set(v)) }
    pub fn get(&'static self) -> T where T: Copy { self.with(|c| c.get()) }
    pub fn take(&'static self) -> T where T: Default { self.with(|c| c.take()) }
    pub fn replace(&'static self, v: T) -> T { self.with(|c| c.replace(v)) }
}
impl<T: 'static> LocalKey<crate::cell::RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { self.with(|c| f(&c.borrow())) }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R { self.with(|c| f(&mut c.borrow_mut())) }
}
#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = const { $e:expr } ; $($rest:tt)*) => {
        $(#[$a])* $vis static $n: $crate::thread::LocalKey<$t> = { fn init() -> $t { $e } $crate::place!(fn slots $n: [$t; 2]); $crate::thread::LocalKey::new(init, slots) };
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = const { $e:expr }) => { $crate::thread_local!($(#[$a])* $vis static $n: $t = const { $e };); };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = $e:expr ; $($rest:tt)*) => {
        $(#[$a])* $vis static $n: $crate::thread::LocalKey<$t> = { fn init() -> $t { $e } $crate::place!(fn slots $n: [$t; 2]); $crate::thread::LocalKey::new(init, slots) };
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = $e:expr) => { $crate::thread_local!($(#[$a])* $vis static $n: $t = $e;); };
}

/// A function that names a typed place for a value that starts out uninitialised.
#[macro_export]
macro_rules! place {
    (fn $f:ident $n:ident : $t:ty) => {
        #[cfg(all(kani, not(test)))]
        #[allow(improper_ctypes)]
        fn $f() -> *mut $t { extern "C" { static mut $n: $t; } &raw mut $n }
        #[cfg(not(all(kani, not(test))))]
        fn $f() -> *mut $t { static mut P: core::mem::MaybeUninit<$t> = core::mem::MaybeUninit::uninit(); &raw mut P as *mut $t }
    };
}
