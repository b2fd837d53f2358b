//! C17: one reactor, one helper thread, and the descriptor they are known by.
#![allow(dead_code, unused_imports, static_mut_refs)]
use crate::vh_common::*;
use std::future::poll_fn;
fn at(r: &'static Reactor) -> *const Reactor { r }
fn one() { assert!(w().poll_new == 1, "more than one poller"); assert!(w().spawned == 1, "not exactly one helper thread"); }
proof! { fn c17_one_reactor() unwind 6 {
    assert!(w().poll_new == 0 && w().spawned == 0);
    let a = at(Reactor::get()); one();
    let b = at(Reactor::get()); one();
    assert!(a == b);
    crate::driver::init(); one();
} }
proof! { fn c17_timer_starts_it() unwind 6 {
    set_now(any_clock()); bounds(2, 2, 2, 2);
    let mut t = Timer::after(Duration::new(1, 0));
    assert!(poll_timer(&mut t, 0).is_pending());
    one();
    let mut u = Timer::never();
    assert!(poll_timer(&mut u, 0).is_pending());
    let a = at(Reactor::get()); one();
    assert!(w().notify_count > 0);
    drop(t); drop(u);
    assert!(a == at(Reactor::get())); one();
} }
proof! { fn c17_source_starts_it() unwind 6 {
    set_now(any_clock()); bounds(2, 2, 2, 2);
    let a = Async::new(Sock::new()).unwrap(); one();
    let b = Async::new(Sock::new()).unwrap(); one();
    assert!(xworld::poll_count() == 2, "sources live in different pollers");
    drop(a); drop(b);
    one();
    assert!(xworld::poll_count() == 0);
} }
proof! { fn c17_failed_source_starts_it_once() unwind 6 {
    set_now(any_clock()); bounds(2, 2, 2, 2);
    fault(Site::PollAdd, 12);
    assert!(Async::new(Sock::new()).is_err()); one();
    let _b = Async::new(Sock::new()).unwrap(); one();
} }
proof! { fn c17_block_on_starts_the_helper_once() unwind 6 {
    set_now(any_clock()); bounds(2, 2, 2, 2);
    block_on(poll_fn(|_| Poll::Ready(1)));
    assert!(w().spawned == 1);
    block_on(poll_fn(|_| Poll::Ready(1)));
    assert!(w().spawned == 1);
    let _ = Reactor::get(); one();
} }
proof! { fn c17_reactor_fd() unwind 6 {
    set_now(any_clock()); bounds(2, 2, 2, 2);
    let fd = crate::os::unix::reactor_fd();
    let fd = fd.expect("no descriptor for the reactor");
    assert!(std::os::fd::AsRawFd::as_raw_fd(&fd) == 3 /* the poller's */);
    one();
} }
