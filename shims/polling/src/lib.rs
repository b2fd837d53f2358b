//! Contract of `polling::Poller` (one-shot mode).
//!
//! * `add`/`modify`/`delete` change the registration table atomically, or fail and change nothing.
//! * `wait` blocks until an event is delivered, the poller is notified, the timeout expires or a signal
//!   arrives; it appends events without clearing the buffer; a delivered event disarms both interests.
//! * `notify` makes the current or the next `wait` return.
use xstd::io;
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use std::time::Duration;
use xworld::{w, NP, NO_ENTRY, Site, take_fault};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool }
impl Event {
    pub const fn new(key: usize, readable: bool, writable: bool) -> Event { Event { key, readable, writable } }
    pub const fn all(key: usize) -> Event { Event::new(key, true, true) }
    pub const fn readable(key: usize) -> Event { Event::new(key, true, false) }
    pub const fn writable(key: usize) -> Event { Event::new(key, false, true) }
    pub const fn none(key: usize) -> Event { Event::new(key, false, false) }
    pub fn with_interrupt(self) -> Event { self }
    pub fn with_priority(self) -> Event { self }
    pub fn set_interrupt(&mut self, _: bool) {}
    pub fn set_priority(&mut self, _: bool) {}
    pub fn is_interrupt(&self) -> bool { false }
    pub fn is_priority(&self) -> bool { false }
    pub fn is_connect_failed(&self) -> Option<bool> { None }
    pub fn is_err(&self) -> Option<bool> { None }
    pub fn clear_extra(&mut self) {}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }

pub const NE: usize = 2;
#[derive(Debug)]
pub struct Events { e: [Event; NE], u: [bool; NE] }
impl Default for Events { fn default() -> Self { Events::new() } }
impl Events {
    pub fn new() -> Self { Events { e: [Event::none(0); NE], u: [false; NE] } }
    pub fn with_capacity(_: std::num::NonZeroUsize) -> Self { Self::new() }
    pub fn iter(&self) -> impl Iterator<Item = Event> + '_ { EvIter { e: self, i: 0 } }
    pub fn clear(&mut self) { self.u = [false; NE]; }
    pub fn len(&self) -> usize { let mut n = 0; let mut i = 0; while i < NE { if self.u[i] { n = i + 1; } i += 1; } n }
    pub fn is_empty(&self) -> bool { !self.u[0] }
    pub fn capacity(&self) -> std::num::NonZeroUsize { std::num::NonZeroUsize::new(NE).unwrap() }
    pub fn push(&mut self, ev: Event) {
        let mut done = false;
        let mut i = 0;
        while i < NE { if !done { if !self.u[i] { done = true; self.e[i] = ev; } self.u[i] = true; } i += 1; }
        xworld::bound!(done, "BOUND events");
    }
}
struct EvIter<'a> { e: &'a Events, i: usize }
impl<'a> Iterator for EvIter<'a> { type Item = Event; fn next(&mut self) -> Option<Event> { if self.i < NE && self.e.u[self.i] { let i = self.i; self.i += 1; Some(self.e.e[i]) } else { None } } }

/// What happens while a thread is inside `wait`; set by a harness. Without one, no event arrives.
pub static mut ON_WAIT: Option<fn(&mut Events, Option<Duration>)> = None;
fn err(code: i32) -> io::Error { io::Error::from_raw_os_error(code) }
#[derive(Debug)]
pub struct Poller { _p: () }
impl Poller {
    pub fn supports_level(&self) -> bool { true }
    pub fn supports_edge(&self) -> bool { true }
    pub fn new() -> io::Result<Poller> { w().poll_new += 1; Ok(Poller { _p: () }) }
    pub unsafe fn add(&self, fd: RawFd, ev: Event) -> io::Result<()> { self.add_with_mode(fd, ev, PollMode::Oneshot) }
    pub unsafe fn add_with_mode(&self, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
        assert!(mode == PollMode::Oneshot, "registration is not one-shot");
        xworld::fd_mut(fd);
        if let Some(c) = take_fault(Site::PollAdd) { return Err(err(c)); }
        if xworld::poll_find(fd).is_some() { return Err(io::ErrorKind::AlreadyExists.into()); }
        let mut i = 0;
        while i < NP { if !w().poll[i].used { w().poll[i] = xworld::PollEntry { used: true, fd, key: ev.key, r: ev.readable, w: ev.writable }; return Ok(()); } i += 1; }
        xworld::bound!(false, "BOUND poller"); unreachable!()
    }
    pub fn modify(&self, fd: BorrowedFd<'_>, ev: Event) -> io::Result<()> { self.modify_with_mode(fd, ev, PollMode::Oneshot) }
    pub fn modify_with_mode(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
        assert!(mode == PollMode::Oneshot, "registration is not one-shot");
        let fd = fd.as_raw_fd();
        xworld::fd_mut(fd);
        w().modify_calls += 1;
        if let Some(c) = take_fault(Site::PollModify) { return Err(err(c)); }
        let mut i = 0;
        while i < NP {
            if w().poll[i].used && w().poll[i].fd == fd { let p = &mut w().poll[i]; p.key = ev.key; p.r = ev.readable; p.w = ev.writable; return Ok(()); }
            i += 1;
        }
        Err(io::ErrorKind::NotFound.into())
    }
    pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
        let fd = fd.as_raw_fd();
        xworld::fd_mut(fd);
        w().delete_calls += 1;
        if let Some(c) = take_fault(Site::PollDelete) { w().delete_failed = fd; return Err(err(c)); }
        let mut i = 0;
        while i < NP {
            if w().poll[i].used && w().poll[i].fd == fd { w().poll[i] = NO_ENTRY; return Ok(()); }
            i += 1;
        }
        Err(io::ErrorKind::NotFound.into())
    }
    pub fn notify(&self) -> io::Result<()> { xworld::interfere(); w().notify_pending = true; w().notify_count += 1; w().notify_seq = xworld::tick(); Ok(()) }
    pub fn wait(&self, events: &mut Events, timeout: Option<Duration>) -> io::Result<usize> {
        w().waits += 1; w().last_timeout = timeout;
        if let Some(f) = unsafe { ON_WAIT } { f(events, timeout); }
        w().notify_pending = false;
        if let Some(c) = take_fault(Site::PollWait) { return Err(err(c)); }
        Ok(events.len())
    }
}
impl AsFd for Poller { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw(3) } } }
impl std::os::fd::AsRawFd for Poller { fn as_raw_fd(&self) -> RawFd { 3 } }
