//! Contract of `Vec`: a finite sequence. Kept in place with at most `CAP` elements (stated bound);
//! going beyond it ends the path.
pub use std::vec::*;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ops::{Deref, DerefMut, RangeBounds, Bound};
pub const CAP: usize = 6;
/// How many of the slots are in play (set per harness; no larger than `CAP`).
pub static mut LIMIT: usize = CAP;
fn limit() -> usize { unsafe { LIMIT } }
/// `u` flags the occupied elements, which form a prefix.
pub struct Vec<T> { e: [ManuallyDrop<T>; CAP], u: [bool; CAP] }
impl<T> Drop for Vec<T> { fn drop(&mut self) { self.clear() } }
impl<T> Vec<T> {
    pub const fn new() -> Self { Vec { e: unsafe { MaybeUninit::zeroed().assume_init() }, u: [false; CAP] } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn capacity(&self) -> usize { limit() }
    pub fn len(&self) -> usize { let mut n = 0; let mut i = 0; while i < limit() { if self.u[i] { n = i + 1; } i += 1; } n }
    pub fn is_empty(&self) -> bool { !self.u[0] }
    // Writes stay inside the loop body so that every index is a constant for the verifier.
    pub fn push(&mut self, v: T) {
        let v = ManuallyDrop::new(v);
        let mut done = false;
        let mut i = 0;
        while i < limit() {
            if !done {
                if !self.u[i] { self.u[i] = true; done = true; unsafe { std::ptr::write(&mut self.e[i], std::ptr::read(&v)); } }
                else { self.u[i] = true; }
            }
            i += 1;
        }
        xworld::bound!(done, "BOUND vec");
    }
    fn front(&mut self) -> Option<T> {
        if !self.u[0] { self.u = [false; CAP]; return None; }
        unsafe {
            let r = std::ptr::read(&self.e[0]);
            let mut j = 1;
            while j < limit() {
                self.u[j - 1] = self.u[j];
                let x = std::ptr::read(&self.e[j]); std::ptr::write(&mut self.e[j - 1], x);
                j += 1;
            }
            self.u[j - 1] = false;
            Some(ManuallyDrop::into_inner(r))
        }
    }
    pub fn pop(&mut self) -> Option<T> {
        let mut j = limit();
        while j > 0 { j -= 1; if self.u[j] { self.u[j] = false; return Some(ManuallyDrop::into_inner(unsafe { std::ptr::read(&self.e[j]) })); } }
        None
    }
    pub fn remove(&mut self, i: usize) -> T {
        assert!(i < self.len(), "removal index out of bounds");
        unsafe {
            let r = std::ptr::read(&self.e[i]);
            let mut j = i;
            while j < limit() {
                if j + 1 < limit() && self.u[j + 1] { let x = std::ptr::read(&self.e[j + 1]); std::ptr::write(&mut self.e[j], x); } else { self.u[j] = false; if j + 1 < limit() { self.u[j + 1] = false; } break; }
                j += 1;
            }
            ManuallyDrop::into_inner(r)
        }
    }
    pub fn swap_remove(&mut self, i: usize) -> T { let n = self.len(); assert!(i < n); self.swap(i, n - 1); self.pop().unwrap() }
    pub fn insert(&mut self, i: usize, v: T) { assert!(i <= self.len()); self.push(v); let mut j = self.len() - 1; while j > i { self.swap(j, j - 1); j -= 1; } }
    pub fn truncate(&mut self, n: usize) { let mut j = limit(); while j > n { j -= 1; if self.u[j] { self.u[j] = false; unsafe { ManuallyDrop::drop(&mut self.e[j]) } } } }
    pub fn clear(&mut self) { let mut j = 0; while j < limit() { if !self.u[j] { break; } self.u[j] = false; unsafe { ManuallyDrop::drop(&mut self.e[j]) } j += 1; } }
    pub fn append(&mut self, o: &mut Self) { while let Some(x) = o.front() { self.push(x); } }
    pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) { let mut i = 0; let mut c = 0; while c < limit() { if i < self.len() { if f(&self.e[i]) { i += 1; } else { drop(self.remove(i)); } } c += 1; } }
    pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        assert!(matches!(r.start_bound(), Bound::Unbounded | Bound::Included(&0)) && matches!(r.end_bound(), Bound::Unbounded), "unsupported drain range");
        IntoIter { v: std::mem::take(self) }
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter { v: self, i: 0 } }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> { IterMut { v: self, i: 0, p: std::marker::PhantomData } }
}
impl<T> Default for Vec<T> { fn default() -> Self { Self::new() } }
impl<T: Clone> Clone for Vec<T> { fn clone(&self) -> Self { let mut r = Vec::new(); for x in self.iter() { r.push(x.clone()); } r } }
impl<T> std::fmt::Debug for Vec<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T> Deref for Vec<T> { type Target = [T]; fn deref(&self) -> &[T] { unsafe { std::slice::from_raw_parts(self.e.as_ptr() as *const T, self.len()) } } }
impl<T> DerefMut for Vec<T> { fn deref_mut(&mut self) -> &mut [T] { let n = self.len(); unsafe { std::slice::from_raw_parts_mut(self.e.as_mut_ptr() as *mut T, n) } } }
impl<T> Extend<T> for Vec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push(x); } } }
impl<T> FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut r = Vec::new(); r.extend(it); r } }
pub struct Iter<'a, T> { v: &'a Vec<T>, i: usize }
impl<'a, T> Iterator for Iter<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { if self.i < limit() && self.v.u[self.i] { let i = self.i; self.i += 1; Some(&self.v.e[i]) } else { None } } }
pub struct IterMut<'a, T> { v: *mut Vec<T>, i: usize, p: std::marker::PhantomData<&'a mut T> }
impl<'a, T> Iterator for IterMut<'a, T> { type Item = &'a mut T; fn next(&mut self) -> Option<&'a mut T> { unsafe { if self.i < limit() && (*self.v).u[self.i] { let i = self.i; self.i += 1; Some(&mut (*self.v).e[i]) } else { None } } } }
pub struct IntoIter<T> { v: Vec<T> }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.v.front() } }
impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { v: self } } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<'a, T> IntoIterator for &'a mut Vec<T> { type Item = &'a mut T; type IntoIter = IterMut<'a, T>; fn into_iter(self) -> IterMut<'a, T> { self.iter_mut() } }
impl<T, const N: usize> From<[T; N]> for Vec<T> { fn from(a: [T; N]) -> Self { let mut r = Vec::new(); for x in a { r.push(x); } r } }
impl<T> AsRef<[T]> for Vec<T> { fn as_ref(&self) -> &[T] { self } }
impl<T> AsMut<[T]> for Vec<T> { fn as_mut(&mut self) -> &mut [T] { self } }
impl<T> Vec<T> {
    pub fn as_slice(&self) -> &[T] { self }
    pub fn as_mut_slice(&mut self) -> &mut [T] { self }
    pub fn extend_from_slice(&mut self, s: &[T]) where T: Clone { for x in s { self.push(x.clone()); } }
    pub fn split_off(&mut self, at: usize) -> Self { let mut r = Vec::new(); let mut c = 0; while c < limit() { if self.len() > at { r.push(self.remove(at)); } c += 1; } r }
}
#[macro_export]
macro_rules! vec {
    () => { $crate::vec::Vec::new() };
    ($($x:expr),+ $(,)?) => { { let mut v = $crate::vec::Vec::new(); $(v.push($x);)+ v } };
}
