#![allow(dead_code, unused_imports, static_mut_refs)]
pub use crate::*;
pub(crate) use crate::reactor::Reactor;
pub use xstd::time::{Duration, Instant};
pub use xworld::{fault, w, waker, Site};
pub use xstd::io;
pub use futures_lite::stream::Stream;
pub use std::future::Future;
pub use std::pin::Pin;
pub use xstd::vawait::{AwaitFuture, AwaitNow};
pub use std::task::{Context, Poll, Waker};

pub fn any_instant() -> Instant {
    let (secs, nanos): (i64, u32) = (kani::any(), kani::any());
    kani::assume(nanos < 1_000_000_000);
    Instant { secs, nanos }
}
pub fn any_duration() -> Duration {
    let (s, n): (u64, u32) = (kani::any(), kani::any());
    kani::assume(n < 1_000_000_000);
    Duration::new(s, n)
}
/// The monotonic clock never shows a value more than 2^40 seconds from boot.
pub fn any_clock() -> Instant {
    let i = any_instant();
    kani::assume(i.secs >= 0 && i.secs < 1 << 40);
    i
}
pub fn set_now(i: Instant) { w().now_secs = i.secs; w().now_nanos = i.nanos; }
pub fn now() -> Instant { Instant { secs: w().now_secs, nanos: w().now_nanos } }
/// Lets the clock advance to an arbitrary later (or equal) value.
pub fn advance() -> Instant { let i = any_clock(); kani::assume(i >= now()); set_now(i); i }
/// From now on, every reading of the clock may show a later value than the one before.
pub fn clock_runs() { w().clock_advances = true; }
/// Brings the reactor and the helper thread into existence before any symbolic choice is made.
pub fn setup() {
    let _ = Reactor::get();
    crate::driver::init();
    set_now(any_clock());
}
/// The stand-ins' bounds for this harness: queued operations, timers, wakers in one pass, keys per slab.
pub fn bounds(queue: usize, map: usize, vec: usize, slab: usize) {
    unsafe { concurrent_queue::LIMIT = queue; xstd::collections::MAP_LIMIT = map; xstd::vec::LIMIT = vec; slab::LIMIT = slab; }
}
/// The queue of operations may fill up in this harness.
pub fn tight_queue() { unsafe { concurrent_queue::ROOMY = false; } }
/// One pass of the reactor that does not block.
/// A signal interrupts the poller, so that this pass consists of nothing but timer processing.
pub fn react0() { fault(Site::PollWait, 4); Reactor::get().lock().react(Some(Duration::ZERO)).ok(); xworld::no_fault(Site::PollWait); }
pub fn react(t: Option<Duration>) -> io::Result<()> { Reactor::get().lock().react(t) }

pub fn due(d: Option<Instant>) -> bool { match d { Some(d) => d <= now(), None => false } }
pub fn b(x: bool) -> u8 { if x { 1 } else { 0 } }

pub fn poll_timer(t: &mut Timer, id: usize) -> Poll<Option<Instant>> {
    let wk = waker(id);
    let mut cx = Context::from_waker(&wk);
    Stream::poll_next(Pin::new(t), &mut cx)
}
/// What the timer's contract says about one poll at the current (standing) clock: `when` is the scheduled
/// instant, and the result is the new one.
pub fn poll_spec(t: &mut Timer, id: usize, when: Option<Instant>, period: Duration) -> Option<Instant> {
    let r = poll_timer(t, id);
    if due(when) {
        assert!(r == Poll::Ready(when), "a due timer yields its scheduled instant");
        let next = when.unwrap().checked_add(period);
        assert!(t.will_fire() == next.is_some(), "next firing is scheduled exactly when it exists");
        next
    } else {
        assert!(r == Poll::Pending, "a timer that is not due stays pending");
        assert!(t.will_fire() == when.is_some(), "polling early does not reschedule");
        when
    }
}

/// A minimal I/O type: a bare ghost descriptor (closed on drop).
pub struct Sock(pub xstd::os::fd::OwnedFd);
impl Sock {
    pub fn new() -> Sock { Sock(unsafe { xstd::os::fd::OwnedFd::from_raw(xworld::fd_open(false, true)) }) }
    pub fn raw(&self) -> i32 { std::os::fd::AsRawFd::as_raw_fd(&self.0) }
}
impl xstd::os::fd::AsFd for Sock { fn as_fd(&self) -> xstd::os::fd::BorrowedFd<'_> { self.0.as_fd() } }
impl From<xstd::os::fd::OwnedFd> for Sock { fn from(f: xstd::os::fd::OwnedFd) -> Sock { Sock(f) } }
impl From<Sock> for xstd::os::fd::OwnedFd { fn from(s: Sock) -> Self { s.0 } }

/// Events the next `wait` delivers: (descriptor, readable, writable).
pub static mut PENDING: [(i32, bool, bool); 2] = [(-1, false, false); 2];
/// What other threads do while `wait` is in progress, before it collects events.
pub static mut DURING_WAIT: Option<fn()> = None;
fn wait_hook(ev: &mut polling::Events, _t: Option<Duration>) {
    unsafe {
        if let Some(f) = DURING_WAIT { f(); }
        let mut i = 0;
        while i < 2 {
            let (fd, r, wr) = PENDING[i];
            if fd >= 0 {
                PENDING[i].0 = -1;
                let mut j = 0;
                while j < xworld::NP {
                    let p = &mut w().poll[j];
                    if p.used && p.fd == fd { ev.push(polling::Event::new(p.key, r, wr)); p.r = false; p.w = false; break; }
                    j += 1;
                }
            }
            i += 1;
        }
    }
}
/// One blocking pass of the reactor in which the poller reports (r, w) for `fd`.
pub fn deliver(fd: i32, r: bool, wr: bool) -> io::Result<()> {
    unsafe { PENDING[0] = (fd, r, wr); polling::ON_WAIT = Some(wait_hook); }
    react(None)
}
pub fn deliver2(a: (i32, bool, bool), b: (i32, bool, bool)) -> io::Result<()> {
    unsafe { PENDING[0] = a; PENDING[1] = b; polling::ON_WAIT = Some(wait_hook); }
    react(None)
}
pub fn during_wait(f: fn()) { unsafe { DURING_WAIT = Some(f); polling::ON_WAIT = Some(wait_hook); } }
pub fn no_wait_hook() { unsafe { DURING_WAIT = None; polling::ON_WAIT = None; } }

/// Interest armed with the poller for `fd`: (read, write).
pub fn armed(fd: i32) -> (bool, bool) {
    let mut j = 0;
    while j < xworld::NP { let p = &w().poll[j]; if p.used && p.fd == fd { return (p.r, p.w); } j += 1; }
    (false, false)
}
pub fn poll_r<T>(a: &Async<T>, id: usize) -> Poll<io::Result<()>> { let wk = waker(id); let mut cx = Context::from_waker(&wk); a.poll_readable(&mut cx) }
pub fn poll_w<T>(a: &Async<T>, id: usize) -> Poll<io::Result<()>> { let wk = waker(id); let mut cx = Context::from_waker(&wk); a.poll_writable(&mut cx) }
pub fn poll_f<F: Future + Unpin>(f: &mut F, id: usize) -> Poll<F::Output> { let wk = waker(id); let mut cx = Context::from_waker(&wk); Pin::new(f).poll(&mut cx) }
/// Lets the environment take its turn whenever the `async fn` under test is suspended.
pub fn on_suspend(f: fn(usize)) { unsafe { xworld::ON_SUSPEND = Some(f); } }
pub fn wakes(id: usize) -> u8 { w().wakes[id] }
pub fn clear_wakes() { w().wakes = [0; xworld::NW]; }
#[macro_export]
macro_rules! proof {
    ($(#[$a:meta])* fn $n:ident() unwind $u:literal $b:block) => { $(#[$a])* #[kani::proof] #[kani::unwind($u)] pub(crate) fn $n() { $b; kani::cover!(true, "END"); } };
    ($(#[$a:meta])* fn $n:ident() $b:block) => { $(#[$a])* #[kani::proof] #[kani::unwind(10)] pub(crate) fn $n() { $b; kani::cover!(true, "END"); } };
}
