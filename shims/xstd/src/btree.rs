//! Contract of `BTreeMap`: a finite map, iterated in key order. Kept as an unordered array of at most `CAP`
//! entries (stated bound), in which the order is established on iteration; going beyond the bound ends
//! the path. Indices are loop constants throughout, which is what makes the verifier's job easy.
use std::borrow::Borrow;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ops::{Bound, RangeBounds};
pub const CAP: usize = 4;
/// How many of the slots are in play (set per harness; no larger than `CAP`).
pub static mut LIMIT: usize = CAP;
fn limit() -> usize { unsafe { LIMIT } }
type S<K, V> = ManuallyDrop<(K, V)>;
pub struct BTreeMap<K, V> { e: [S<K, V>; CAP], u: [bool; CAP] }
impl<K, V> Drop for BTreeMap<K, V> { fn drop(&mut self) { self.clear() } }
impl<K, V> BTreeMap<K, V> {
    pub const fn new() -> Self { BTreeMap { e: unsafe { MaybeUninit::zeroed().assume_init() }, u: [false; CAP] } }
    pub fn len(&self) -> usize { let mut n = 0; let mut i = 0; while i < limit() { if self.u[i] { n += 1; } i += 1; } n }
    pub fn is_empty(&self) -> bool { let mut i = 0; while i < limit() { if self.u[i] { return false; } i += 1; } true }
    pub fn clear(&mut self) { let mut i = 0; while i < limit() { if self.u[i] { self.u[i] = false; unsafe { ManuallyDrop::drop(&mut self.e[i]) } } i += 1; } }
}
impl<K: Ord, V> BTreeMap<K, V> {
    /// Is slot `i` the smallest (largest) of the entries flagged in `l`?
    fn is_end(&self, l: &[bool; CAP], i: usize, back: bool) -> bool {
        if !l[i] { return false; }
        let mut r = true;
        let mut j = 0;
        while j < limit() {
            if j != i && l[j] { if back { if self.e[j].0 > self.e[i].0 { r = false; } } else if self.e[j].0 < self.e[i].0 { r = false; } }
            j += 1;
        }
        r
    }
    fn pop(&mut self, back: bool) -> Option<(K, V)> {
        let mut r: Option<(K, V)> = None;
        let mut i = 0;
        let l = self.u;
        while i < limit() { if self.is_end(&l, i, back) { self.u[i] = false; r = Some(ManuallyDrop::into_inner(unsafe { std::ptr::read(&self.e[i]) })); } i += 1; }
        r
    }
    pub fn pop_first(&mut self) -> Option<(K, V)> { self.pop(false) }
    pub fn pop_last(&mut self) -> Option<(K, V)> { self.pop(true) }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let mut old = None;
        let mut i = 0;
        while i < limit() { if self.u[i] && self.e[i].0 == k { self.u[i] = false; old = Some(ManuallyDrop::into_inner(unsafe { std::ptr::read(&self.e[i]) }).1); } i += 1; }
        let x = ManuallyDrop::new((k, v));
        let mut done = false;
        let mut i = 0;
        while i < limit() { if !done && !self.u[i] { self.u[i] = true; done = true; unsafe { std::ptr::write(&mut self.e[i], std::ptr::read(&x)); } } i += 1; }
        xworld::bound!(done, "BOUND map");
        old
    }
    pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        let mut r = None;
        let mut i = 0;
        while i < limit() { if self.u[i] && self.e[i].0.borrow() == k { self.u[i] = false; r = Some(ManuallyDrop::into_inner(unsafe { std::ptr::read(&self.e[i]) })); } i += 1; }
        r
    }
    pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(k).map(|x| x.1) }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { let mut i = 0; while i < limit() { if self.u[i] && self.e[i].0.borrow() == k { return Some(&self.e[i].1); } i += 1; } None }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { let mut i = 0; while i < limit() { if self.u[i] && self.e[i].0.borrow() == k { return Some(&mut self.e[i].1); } i += 1; } None }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { self.get(k).is_some() }
    /// Keeps the keys < k and returns the rest.
    pub fn split_off<Q: Ord + ?Sized>(&mut self, k: &Q) -> Self where K: Borrow<Q> {
        let mut r = BTreeMap::new();
        let mut i = 0;
        while i < limit() {
            unsafe { let x = std::ptr::read(&self.e[i]); std::ptr::write(&mut r.e[i], x); }
            if self.u[i] { let high = self.e[i].0.borrow() >= k; r.u[i] = high; self.u[i] = !high; }
            i += 1;
        }
        r
    }
    pub fn append(&mut self, o: &mut Self) { let mut i = 0; while i < limit() { if o.u[i] { o.u[i] = false; let (k, v) = ManuallyDrop::into_inner(unsafe { std::ptr::read(&o.e[i]) }); self.insert(k, v); } i += 1; } }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let mut l = self.u;
        let mut c = 0;
        while c < limit() {
            let now = l;
            let mut i = 0;
            while i < limit() {
                if self.is_end(&now, i, false) { l[i] = false; let x = &mut *self.e[i]; if !f(&x.0, &mut x.1) { self.u[i] = false; unsafe { ManuallyDrop::drop(&mut self.e[i]) } } }
                i += 1;
            }
            c += 1;
        }
    }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { m: self, l: self.u } }
    pub fn range<Q: Ord + ?Sized, R: RangeBounds<Q>>(&self, r: R) -> Iter<'_, K, V> where K: Borrow<Q> {
        let mut l = self.u;
        let mut i = 0;
        while i < limit() {
            if l[i] {
                let k = self.e[i].0.borrow();
                let lo = match r.start_bound() { Bound::Unbounded => true, Bound::Included(b) => k >= b, Bound::Excluded(b) => k > b };
                let hi = match r.end_bound() { Bound::Unbounded => true, Bound::Included(b) => k <= b, Bound::Excluded(b) => k < b };
                l[i] = lo && hi;
            }
            i += 1;
        }
        Iter { m: self, l }
    }
    pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { let mut i = 0; while i < limit() { if self.u[i] && self.e[i].0.borrow() == k { let x = &*self.e[i]; return Some((&x.0, &x.1)); } i += 1; } None }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { l: self.u, m: self, p: std::marker::PhantomData } }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ { self.iter_mut().map(|x| x.1) }
    pub fn entry(&mut self, k: K) -> MapEntry<'_, K, V> {
        let mut i = 0;
        while i < limit() { if self.u[i] && self.e[i].0 == k { return MapEntry::Occupied(Entry { m: self, i }); } i += 1; }
        MapEntry::Vacant(VacantEntry { m: self, k })
    }
    pub fn last_entry(&mut self) -> Option<Entry<'_, K, V>> { let mut i = 0; let l = self.u; while i < limit() { if self.is_end(&l, i, true) { return Some(Entry { m: self, i }); } i += 1; } None }
    pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + '_ { self.iter().map(|x| x.0) }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + '_ { self.iter().map(|x| x.1) }
    pub fn into_values(self) -> impl DoubleEndedIterator<Item = V> { self.into_iter().map(|x| x.1) }
    pub fn into_keys(self) -> impl DoubleEndedIterator<Item = K> { self.into_iter().map(|x| x.0) }
    pub fn first_key_value(&self) -> Option<(&K, &V)> { self.iter().next() }
    pub fn last_key_value(&self) -> Option<(&K, &V)> { self.iter().next_back() }
    pub fn first_entry(&mut self) -> Option<Entry<'_, K, V>> { let mut i = 0; let l = self.u; while i < limit() { if self.is_end(&l, i, false) { return Some(Entry { m: self, i }); } i += 1; } None }
    pub fn extract_if<F: FnMut(&K, &mut V) -> bool, R: RangeBounds<K>>(&mut self, r: R, mut f: F) -> IntoIter<K, V> {
        let mut out = BTreeMap::new();
        let mut i = 0;
        while i < limit() {
            unsafe { let x = std::ptr::read(&self.e[i]); std::ptr::write(&mut out.e[i], x); }
            if self.u[i] { let x = &mut *self.e[i]; let take = r.contains(&x.0) && f(&x.0, &mut x.1); out.u[i] = take; self.u[i] = !take; }
            i += 1;
        }
        out.into_iter()
    }
}
pub struct Entry<'a, K, V> { m: &'a mut BTreeMap<K, V>, i: usize }
impl<'a, K, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K { &self.m.e[self.i].0 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.m.e[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.m.e[self.i].1 }
    pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.m.e[self.i].1, v) }
    pub fn get(&self) -> &V { &self.m.e[self.i].1 }
    pub fn remove(self) -> V { self.remove_entry().1 }
    pub fn remove_entry(self) -> (K, V) { self.m.u[self.i] = false; ManuallyDrop::into_inner(unsafe { std::ptr::read(&self.m.e[self.i]) }) }
}
impl<K, V> Default for BTreeMap<K, V> { fn default() -> Self { Self::new() } }
pub struct Iter<'a, K, V> { m: &'a BTreeMap<K, V>, l: [bool; CAP] }
impl<'a, K: Ord, V> Iter<'a, K, V> {
    fn step(&mut self, back: bool) -> Option<(&'a K, &'a V)> {
        let mut r = None;
        let now = self.l;
        let mut i = 0;
        while i < limit() { if self.m.is_end(&now, i, back) { self.l[i] = false; let x = &*self.m.e[i]; r = Some((&x.0, &x.1)); } i += 1; }
        r
    }
}
impl<'a, K: Ord, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { self.step(false) } }
impl<'a, K: Ord, V> DoubleEndedIterator for Iter<'a, K, V> { fn next_back(&mut self) -> Option<Self::Item> { self.step(true) } }
pub struct IntoIter<K, V> { m: BTreeMap<K, V> }
impl<K: Ord, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { self.m.pop(false) } }
impl<K: Ord, V> DoubleEndedIterator for IntoIter<K, V> { fn next_back(&mut self) -> Option<(K, V)> { self.m.pop(true) } }
impl<K: Ord, V> IntoIterator for BTreeMap<K, V> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { m: self } } }
impl<'a, K: Ord, V> IntoIterator for &'a BTreeMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
pub enum MapEntry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(Entry<'a, K, V>) }
pub struct VacantEntry<'a, K, V> { m: &'a mut BTreeMap<K, V>, k: K }
impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
    pub fn insert(self, v: V) -> &'a mut V {
        let x = ManuallyDrop::new((self.k, v));
        let m = self.m;
        let mut k = CAP;
        let mut i = 0;
        while i < limit() { if k == CAP && !m.u[i] { m.u[i] = true; k = i; unsafe { std::ptr::write(&mut m.e[i], std::ptr::read(&x)); } } i += 1; }
        xworld::bound!(k < CAP, "BOUND map");
        &mut m.e[k].1
    }
}
impl<'a, K: Ord, V> MapEntry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { MapEntry::Vacant(e) => e.insert(v), MapEntry::Occupied(e) => e.into_mut() } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { MapEntry::Vacant(e) => e.insert(f()), MapEntry::Occupied(e) => e.into_mut() } }
    pub fn key(&self) -> &K { match self { MapEntry::Vacant(e) => e.key(), MapEntry::Occupied(e) => e.key() } }
}
pub struct IterMut<'a, K, V> { m: *mut BTreeMap<K, V>, l: [bool; CAP], p: std::marker::PhantomData<(&'a K, &'a mut V)> }
impl<'a, K: Ord, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        let mut r = None;
        let now = self.l;
        let m = self.m;
        let mut i = 0;
        unsafe { while i < limit() { if (*m).is_end(&now, i, false) { self.l[i] = false; let x = &mut *(*m).e[i]; r = Some((&x.0, &mut x.1)); } i += 1; } }
        r
    }
}
impl<'a, K: Ord, V> IntoIterator for &'a mut BTreeMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut r = BTreeMap::new(); r.extend(it); r } }
impl<K, V> std::fmt::Debug for BTreeMap<K, V> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
