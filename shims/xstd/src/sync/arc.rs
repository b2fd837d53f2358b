//! Contract of `Arc`: shared ownership; the value is dropped when the last handle goes.
//! The allocation is never reused (so that a use after release would be seen as a read of a dead value).
use std::borrow::Borrow;
use std::cell::Cell;
use std::mem::ManuallyDrop;
use std::ops::Deref;
pub struct Inner<T: ?Sized> { strong: Cell<usize>, data: ManuallyDrop<T> }
/// Where values of a type are allocated: the heap, unless the generated crate names a static pool.
pub unsafe trait Pool: Sized { fn alloc() -> *mut Inner<Self>; }
unsafe impl<T> Pool for T {
    default fn alloc() -> *mut Inner<T> { Box::into_raw(Box::new(core::mem::MaybeUninit::<Inner<T>>::uninit())) as *mut Inner<T> }
}
pub struct Arc<T: ?Sized> { p: *mut Inner<T> }
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized + std::panic::RefUnwindSafe> std::panic::UnwindSafe for Arc<T> {}
impl<T> Arc<T> {
    pub fn new(v: T) -> Arc<T> {
        let p = <T as Pool>::alloc();
        unsafe { std::ptr::write(p, Inner { strong: Cell::new(1), data: ManuallyDrop::new(v) }); }
        Arc { p }
    }
    pub fn pin(v: T) -> std::pin::Pin<Arc<T>> { unsafe { std::pin::Pin::new_unchecked(Arc::new(v)) } }
    pub fn into_raw(this: Self) -> *const T { let p = unsafe { &*(*this.p).data as *const T }; std::mem::forget(this); p }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        if Arc::strong_count(&this) != 1 { return Err(this); }
        let v = unsafe { ManuallyDrop::take(&mut (*this.p).data) };
        this.inner().strong.set(0);
        std::mem::forget(this);
        Ok(v)
    }
    pub fn into_inner(this: Self) -> Option<T> { Arc::try_unwrap(this).ok() }
}
impl<T: ?Sized> Arc<T> {
    fn inner(&self) -> &Inner<T> { unsafe { &*self.p } }
    pub fn strong_count(this: &Self) -> usize { this.inner().strong.get() }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { a.p as *const () == b.p as *const () }
    pub fn as_ptr(this: &Self) -> *const T { &*this.inner().data }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> { if Arc::strong_count(this) == 1 { Some(unsafe { &mut *(*this.p).data }) } else { None } }
}
impl<T> Arc<T> {
    pub unsafe fn from_raw(p: *const T) -> Self { Arc { p: (p as *const u8).sub(core::mem::offset_of!(Inner<T>, data)) as *mut Inner<T> } }
    pub unsafe fn increment_strong_count(p: *const T) { let a = ManuallyDrop::new(Arc::from_raw(p)); let _ = ManuallyDrop::new((*a).clone()); }
    pub unsafe fn decrement_strong_count(p: *const T) { drop(Arc::from_raw(p)) }
    pub fn unwrap_or_clone(this: Self) -> T where T: Clone { match Arc::try_unwrap(this) { Ok(t) => t, Err(a) => (*a).clone() } }
}
impl<T: ?Sized> Arc<T> {
    pub fn downgrade(this: &Self) -> Weak<T> { Weak { p: this.p } }
}
/// The allocation outlives every handle, so a weak handle needs no count.
pub struct Weak<T: ?Sized> { p: *mut Inner<T> }
unsafe impl<T: ?Sized + Sync + Send> Send for Weak<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Weak<T> {}
impl<T> Weak<T> { pub const fn new() -> Self { Weak { p: core::ptr::null_mut() } } }
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        if self.p.is_null() { return None; }
        let i = unsafe { &*self.p };
        if i.strong.get() == 0 { return None; }
        i.strong.set(i.strong.get() + 1);
        Some(Arc { p: self.p })
    }
    pub fn strong_count(&self) -> usize { if self.p.is_null() { 0 } else { unsafe { (*self.p).strong.get() } } }
    pub fn ptr_eq(&self, o: &Self) -> bool { self.p as *const () == o.p as *const () }
}
impl<T: ?Sized> Clone for Weak<T> { fn clone(&self) -> Self { Weak { p: self.p } } }
impl<T: ?Sized> std::fmt::Debug for Weak<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T: ?Sized> Clone for Arc<T> { fn clone(&self) -> Self { let i = self.inner(); i.strong.set(i.strong.get() + 1); Arc { p: self.p } } }
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        let n = self.inner().strong.get();
        assert!(n > 0, "value released twice");
        self.inner().strong.set(n - 1);
        if n == 1 { unsafe { ManuallyDrop::drop(&mut (*self.p).data) } }
    }
}
impl<T: ?Sized> Deref for Arc<T> { type Target = T; fn deref(&self) -> &T { &*self.inner().data } }
impl<T: ?Sized> Borrow<T> for Arc<T> { fn borrow(&self) -> &T { self } }
impl<T: ?Sized> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { self } }
impl<T> From<T> for Arc<T> { fn from(v: T) -> Self { Arc::new(v) } }
impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
impl<T: ?Sized> std::fmt::Debug for Arc<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T: ?Sized + std::os::fd::AsFd> std::os::fd::AsFd for Arc<T> { fn as_fd(&self) -> std::os::fd::BorrowedFd<'_> { (**self).as_fd() } }

use std::task::{RawWaker, RawWakerVTable, Waker};
pub trait Wake {
    fn wake(self: Arc<Self>);
    fn wake_by_ref(self: &Arc<Self>) { self.clone().wake() }
}
impl<W: Wake + Send + Sync + 'static> From<Arc<W>> for Waker {
    fn from(a: Arc<W>) -> Waker {
        let a = ManuallyDrop::new(a);
        unsafe { Waker::from_raw(RawWaker::new(a.p as *const (), vt::<W>())) }
    }
}
fn vt<W: Wake + Send + Sync + 'static>() -> &'static RawWakerVTable {
    unsafe fn back<W>(p: *const ()) -> Arc<W> { Arc { p: p as *mut Inner<W> } }
    unsafe fn clone<W: Wake + Send + Sync + 'static>(p: *const ()) -> RawWaker { let a = ManuallyDrop::new(back::<W>(p)); let _ = ManuallyDrop::new((*a).clone()); RawWaker::new(p, vt::<W>()) }
    unsafe fn wake<W: Wake>(p: *const ()) { W::wake(back::<W>(p)) }
    unsafe fn wake_by_ref<W: Wake>(p: *const ()) { let a = ManuallyDrop::new(back::<W>(p)); W::wake_by_ref(&a) }
    unsafe fn drop<W>(p: *const ()) { core::mem::drop(back::<W>(p)) }
    &const { RawWakerVTable::new(clone::<W>, wake::<W>, wake_by_ref::<W>, drop::<W>) }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + std::fmt::Display> std::fmt::Display for Arc<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
