//! Contract of `concurrent_queue::ConcurrentQueue::bounded`: a FIFO that rejects pushes when full.
//! The capacity asked for is scaled down to `OFFERED` (1..=CAP), so that the full case is reachable.
use std::cell::{Cell, UnsafeCell};
use std::mem::{ManuallyDrop, MaybeUninit};
pub const CAP: usize = 8;
pub struct ConcurrentQueue<T> { e: UnsafeCell<[ManuallyDrop<T>; CAP]>, u: UnsafeCell<[bool; CAP]>, cap: Cell<usize> }
unsafe impl<T> Sync for ConcurrentQueue<T> {}
unsafe impl<T> Send for ConcurrentQueue<T> {}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum PushError<T> { Full(T), Closed(T) }
impl<T> PushError<T> { pub fn into_inner(self) -> T { match self { PushError::Full(t) | PushError::Closed(t) => t } }
  pub fn is_full(&self) -> bool { matches!(self, PushError::Full(_)) } pub fn is_closed(&self) -> bool { !self.is_full() } }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum PopError { Empty, Closed }
impl PopError { pub fn is_empty(&self) -> bool { matches!(self, PopError::Empty) } pub fn is_closed(&self) -> bool { !self.is_empty() } }
/// How many of the slots are in play (set per harness; no larger than `CAP`).
pub static mut LIMIT: usize = CAP;
/// When set, only histories in which the queue never fills up are considered.
pub static mut ROOMY: bool = true;
fn limit() -> usize { unsafe { LIMIT } }
impl<T> ConcurrentQueue<T> {
    pub fn bounded(cap: usize) -> Self {
        assert!(cap > 0, "capacity must be positive");
        let limit = limit();
        ConcurrentQueue { e: UnsafeCell::new(unsafe { MaybeUninit::zeroed().assume_init() }), u: UnsafeCell::new([false; CAP]), cap: Cell::new(if cap < limit { cap } else { limit }) }
    }
    pub fn unbounded() -> Self { Self::bounded(CAP) }
    fn e(&self) -> &mut [ManuallyDrop<T>; CAP] { unsafe { &mut *self.e.get() } }
    fn u(&self) -> &mut [bool; CAP] { unsafe { &mut *self.u.get() } }
    pub fn push(&self, v: T) -> Result<(), PushError<T>> {
        xworld::interfere();
        let (u, e) = (self.u(), self.e());
        // Writes stay inside the loop body so that every index is a constant for the verifier.
        let v = ManuallyDrop::new(v);
        let mut done = false;
        let mut i = 0;
        while i < limit() {
            if !done {
                if !u[i] { u[i] = true; done = true; unsafe { std::ptr::write(&mut e[i], std::ptr::read(&v)); } }
                else { u[i] = true; }
            }
            i += 1;
        }
        if unsafe { ROOMY } { xworld::bound!(done, "BOUND queue"); }
        if done || unsafe { ROOMY } { xworld::w().push_seq = xworld::tick(); Ok(()) } else { Err(PushError::Full(ManuallyDrop::into_inner(v))) }
    }
    pub fn pop(&self) -> Result<T, PopError> {
        xworld::interfere();
        let (u, e) = (self.u(), self.e());
        if !u[0] { *u = [false; CAP]; return Err(PopError::Empty); }
        let v = unsafe { std::ptr::read(&e[0]) };
        let mut i = 1;
        while i < limit() {
            u[i - 1] = u[i];
            unsafe { let x = std::ptr::read(&e[i]); std::ptr::write(&mut e[i - 1], x); }
            i += 1;
        }
        u[i - 1] = false;
        Ok(ManuallyDrop::into_inner(v))
    }
    pub fn len(&self) -> usize { let mut n = 0; let mut i = 0; while i < CAP { if self.u()[i] { n = i + 1; } i += 1; } n }
    pub fn is_empty(&self) -> bool { !self.u()[0] }
    pub fn is_full(&self) -> bool { self.len() >= self.cap.get() }
    pub fn capacity(&self) -> Option<usize> { Some(self.cap.get()) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter { q: self } }
    pub fn is_closed(&self) -> bool { false }
    pub fn force_push(&self, v: T) -> Result<Option<T>, PushError<T>> { if self.is_full() { let old = self.pop().ok(); self.push(v)?; Ok(old) } else { self.push(v)?; Ok(None) } }
}
pub struct TryIter<'a, T> { q: &'a ConcurrentQueue<T> }
impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.q.pop().ok() } }
