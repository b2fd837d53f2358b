//! Contract of the atomics: sequentially consistent cells. Every access is an interference point.
pub use std::sync::atomic::Ordering;
pub use std::sync::atomic::{fence, compiler_fence};
use std::cell::Cell;
macro_rules! atomic {
    ($n:ident, $t:ty) => {
        pub struct $n(Cell<$t>);
        unsafe impl Sync for $n {}
        impl std::panic::RefUnwindSafe for $n {}
        impl std::fmt::Debug for $n { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
        impl Default for $n { fn default() -> Self { Self::new(Default::default()) } }
        impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
        impl $n {
            pub const fn new(v: $t) -> Self { $n(Cell::new(v)) }
            pub fn load(&self, _: Ordering) -> $t { xworld::interfere(); self.0.get() }
            pub fn store(&self, v: $t, _: Ordering) { xworld::interfere(); self.0.set(v) }
            pub fn swap(&self, v: $t, _: Ordering) -> $t { xworld::interfere(); self.0.replace(v) }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                xworld::interfere();
                let v = self.0.get(); if v == a { self.0.set(b); Ok(v) } else { Err(v) }
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, s, f) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                xworld::interfere();
                let v = self.0.get(); match f(v) { Some(n) => { self.0.set(n); Ok(v) } None => Err(v) }
            }
            pub fn try_update(&self, s: Ordering, l: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, l, f) }
            pub fn update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($t) -> $t) -> $t { xworld::interfere(); let v = self.0.get(); self.0.set(f(v)); v }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.get() }
        }
    };
}
macro_rules! atomic_int {
    ($n:ident, $t:ty) => {
        atomic!($n, $t);
        impl $n {
            pub fn fetch_add(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); self.0.set(v.wrapping_add(d)); v }
            pub fn fetch_sub(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); self.0.set(v.wrapping_sub(d)); v }
            pub fn fetch_or(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); self.0.set(v | d); v }
            pub fn fetch_and(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); self.0.set(v & d); v }
            pub fn fetch_xor(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); self.0.set(v ^ d); v }
            pub fn fetch_max(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); if d > v { self.0.set(d) } v }
            pub fn fetch_min(&self, d: $t, _: Ordering) -> $t { xworld::interfere(); let v = self.0.get(); if d < v { self.0.set(d) } v }
        }
    };
}
atomic!(AtomicBool, bool);
atomic_int!(AtomicUsize, usize);
atomic_int!(AtomicIsize, isize);
atomic_int!(AtomicU64, u64);
atomic_int!(AtomicU32, u32);
atomic_int!(AtomicU8, u8);
atomic_int!(AtomicU16, u16);
atomic_int!(AtomicI32, i32);
atomic_int!(AtomicI64, i64);
impl AtomicBool {
    pub fn fetch_or(&self, d: bool, _: Ordering) -> bool { xworld::interfere(); let v = self.0.get(); self.0.set(v | d); v }
    pub fn fetch_xor(&self, d: bool, _: Ordering) -> bool { xworld::interfere(); let v = self.0.get(); self.0.set(v ^ d); v }
    pub fn fetch_not(&self, o: Ordering) -> bool { self.fetch_xor(true, o) }
    pub fn fetch_nand(&self, d: bool, _: Ordering) -> bool { xworld::interfere(); let v = self.0.get(); self.0.set(!(v & d)); v }
    pub fn fetch_and(&self, d: bool, _: Ordering) -> bool { xworld::interfere(); let v = self.0.get(); self.0.set(v & d); v }
}
