//! Contract of `slab::Slab`: a finite map from keys to values; `insert` picks a key that is not in use.
//!
//! Capacity here is bounded by `CAP` (stated bound); going beyond it ends the path.
use std::ops::{Index, IndexMut};
use std::fmt;
use std::mem::{ManuallyDrop, MaybeUninit};
pub const CAP: usize = 3;
pub struct Slab<T> { used: [bool; CAP], e: [ManuallyDrop<T>; CAP] }
/// How many of the slots are in play (set per harness; no larger than `CAP`).
pub static mut LIMIT: usize = CAP;
/// When set, running out of slots is a failure of the program rather than of the bound.
pub static mut STRICT: bool = false;
fn limit() -> usize { unsafe { LIMIT } }
fn room(c: bool) { if unsafe { STRICT } { assert!(c, "an entry that should be gone still occupies the table"); } xworld::bound!(c, "BOUND slab"); }
impl<T> Drop for Slab<T> { fn drop(&mut self) { self.clear() } }
impl<T> Default for Slab<T> { fn default() -> Self { Self::new() } }
impl<T> fmt::Debug for Slab<T> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl<T> Slab<T> {
    pub const fn new() -> Self { Slab { used: [false; CAP], e: unsafe { MaybeUninit::zeroed().assume_init() } } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn capacity(&self) -> usize { limit() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    fn vacant(&self) -> usize {
        let mut i = 0;
        while i < limit() { if !self.used[i] { return i; } i += 1; }
        room(false);
        unreachable!()
    }
    fn put(&mut self, k: usize, v: T) { unsafe { std::ptr::write(&mut self.e[k], ManuallyDrop::new(v)); } self.used[k] = true; }
    fn out(&mut self, k: usize) -> T { self.used[k] = false; ManuallyDrop::into_inner(unsafe { std::ptr::read(&self.e[k]) }) }
    // Writes stay inside the loop body so that every index is a constant for the verifier.
    pub fn insert(&mut self, v: T) -> usize {
        let v = ManuallyDrop::new(v);
        let mut k = limit();
        let mut i = 0;
        while i < limit() {
            if k == limit() && !self.used[i] { self.used[i] = true; k = i; unsafe { std::ptr::write(&mut self.e[i], std::ptr::read(&v)); } }
            i += 1;
        }
        room(k < limit());
        k
    }
    pub fn vacant_key(&self) -> usize { self.vacant() }
    pub fn vacant_entry(&mut self) -> VacantEntry<'_, T> { let key = self.vacant(); VacantEntry { s: self, key } }
    pub fn try_remove(&mut self, k: usize) -> Option<T> { if self.contains(k) { Some(self.out(k)) } else { None } }
    pub fn remove(&mut self, k: usize) -> T { assert!(self.contains(k), "invalid key"); self.out(k) }
    pub fn contains(&self, k: usize) -> bool { k < limit() && self.used[k] }
    pub fn get(&self, k: usize) -> Option<&T> { let mut i = 0; while i < limit() { if i == k { return if self.used[i] { Some(&self.e[i]) } else { None }; } i += 1; } None }
    pub fn get_mut(&mut self, k: usize) -> Option<&mut T> { let mut i = 0; while i < limit() { if i == k { return if self.used[i] { Some(&mut self.e[i]) } else { None }; } i += 1; } None }
    pub fn len(&self) -> usize { let mut n = 0; let mut i = 0; while i < limit() { if self.used[i] { n += 1; } i += 1; } n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&mut self) { let mut i = 0; while i < limit() { if self.used[i] { drop(self.out(i)); } i += 1; } }
    pub fn drain(&mut self) -> Drain<'_, T> { Drain { s: self, i: 0 } }
    pub fn iter(&self) -> Iter<'_, T> { Iter { s: self, i: 0 } }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> { IterMut { s: self, i: 0, p: std::marker::PhantomData } }
    pub fn retain(&mut self, mut f: impl FnMut(usize, &mut T) -> bool) {
        let mut i = 0;
        while i < limit() { if self.used[i] && !f(i, &mut self.e[i]) { drop(self.out(i)); } i += 1; }
    }
}
impl<T> Index<usize> for Slab<T> { type Output = T; fn index(&self, k: usize) -> &T { self.get(k).expect("invalid key") } }
impl<T> IndexMut<usize> for Slab<T> { fn index_mut(&mut self, k: usize) -> &mut T { self.get_mut(k).expect("invalid key") } }
pub struct VacantEntry<'a, T> { s: &'a mut Slab<T>, key: usize }
impl<'a, T> VacantEntry<'a, T> {
    pub fn key(&self) -> usize { self.key }
    pub fn insert(self, v: T) -> &'a mut T { self.s.put(self.key, v); &mut self.s.e[self.key] }
}
pub struct Iter<'a, T> { s: &'a Slab<T>, i: usize }
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = (usize, &'a T);
    fn next(&mut self) -> Option<Self::Item> {
        while self.i < limit() { let i = self.i; self.i += 1; if self.s.used[i] { return Some((i, &self.s.e[i])); } }
        None
    }
}
pub struct IterMut<'a, T> { s: *mut Slab<T>, i: usize, p: std::marker::PhantomData<&'a mut T> }
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = (usize, &'a mut T);
    fn next(&mut self) -> Option<Self::Item> {
        while self.i < limit() { let i = self.i; self.i += 1; unsafe { if (*self.s).used[i] { return Some((i, &mut (*self.s).e[i])); } } }
        None
    }
}
pub struct Drain<'a, T> { s: &'a mut Slab<T>, i: usize }
impl<'a, T> Iterator for Drain<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        while self.i < limit() { let i = self.i; self.i += 1; if self.s.used[i] { return Some(self.s.out(i)); } }
        None
    }
}
impl<'a, T> Drop for Drain<'a, T> { fn drop(&mut self) { self.s.clear() } }
impl<'a, T> IntoIterator for &'a Slab<T> { type Item = (usize, &'a T); type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<'a, T> IntoIterator for &'a mut Slab<T> { type Item = (usize, &'a mut T); type IntoIter = IterMut<'a, T>; fn into_iter(self) -> IterMut<'a, T> { self.iter_mut() } }
pub struct IntoIter<T> { s: Slab<T>, i: usize }
impl<T> Iterator for IntoIter<T> {
    type Item = (usize, T);
    fn next(&mut self) -> Option<(usize, T)> {
        while self.i < limit() { let i = self.i; self.i += 1; if self.s.used[i] { return Some((i, self.s.out(i))); } }
        None
    }
}
impl<T> IntoIterator for Slab<T> { type Item = (usize, T); type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { s: self, i: 0 } } }
