//! `std::cell`, with a `RefCell` whose results have a plain discriminant (same contract: many readers or one writer).
pub use std::cell::*;
use std::ops::{Deref, DerefMut};
pub struct RefCell<T: ?Sized> { n: Cell<isize>, v: UnsafeCell<T> }
#[derive(Debug)]
pub struct BorrowMutError;
#[derive(Debug)]
pub struct BorrowError;
pub struct RefMut<'a, T: ?Sized> { n: *const Cell<isize>, v: *mut T, p: std::marker::PhantomData<&'a ()> }
pub struct Ref<'a, T: ?Sized> { n: *const Cell<isize>, v: *const T, p: std::marker::PhantomData<&'a ()> }
impl<T> RefCell<T> {
    pub const fn new(v: T) -> Self { RefCell { n: Cell::new(0), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> T { self.v.into_inner() }
    pub fn replace(&self, v: T) -> T { std::mem::replace(&mut *self.borrow_mut(), v) }
    pub fn take(&self) -> T where T: Default { self.replace(T::default()) }
}
impl<T: ?Sized> RefCell<T> {
    pub fn try_borrow_mut(&self) -> Result<RefMut<'_, T>, BorrowMutError> {
        if self.n.get() != 0 { return Err(BorrowMutError); }
        self.n.set(-1);
        Ok(RefMut { n: &self.n, v: self.v.get(), p: std::marker::PhantomData })
    }
    pub fn try_borrow(&self) -> Result<Ref<'_, T>, BorrowError> {
        if self.n.get() < 0 { return Err(BorrowError); }
        self.n.set(self.n.get() + 1);
        Ok(Ref { n: &self.n, v: self.v.get(), p: std::marker::PhantomData })
    }
    pub fn borrow_mut(&self) -> RefMut<'_, T> { match self.try_borrow_mut() { Ok(r) => r, Err(_) => panic!("already borrowed") } }
    pub fn borrow(&self) -> Ref<'_, T> { match self.try_borrow() { Ok(r) => r, Err(_) => panic!("already mutably borrowed") } }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
    pub fn as_ptr(&self) -> *mut T { self.v.get() }
}
impl<T: Default> Default for RefCell<T> { fn default() -> Self { RefCell::new(T::default()) } }
impl<T: ?Sized> std::fmt::Debug for RefCell<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T: ?Sized> Deref for RefMut<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.v } } }
impl<T: ?Sized> DerefMut for RefMut<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.v } } }
impl<T: ?Sized> Deref for Ref<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.v } } }
impl<T: ?Sized> Drop for RefMut<'_, T> { fn drop(&mut self) { unsafe { (*self.n).set(0) } } }
impl<T: ?Sized> Drop for Ref<'_, T> { fn drop(&mut self) { unsafe { let n = &*self.n; n.set(n.get() - 1) } } }
