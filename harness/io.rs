//! Contracts of I/O readiness: who is woken (C06), what is armed (C07), no stale readiness (C08),
//! independence of waiters (C09).
use crate::vh_common::*;

fn source() -> (Async<Sock>, i32) { let s = Sock::new(); let fd = s.raw(); (Async::new(s).unwrap(), fd) }
fn end<T>(x: T) { core::mem::forget(x); }
fn flags() -> (bool, bool) { (kani::any(), kani::any()) }
/// Interest armed for every direction somebody waits for.
fn watched(fd: i32, r: bool, wr: bool) {
    let a = armed(fd);
    assert!(!r || a.0, "a task waits for readability and the poller is not watching for it");
    assert!(!wr || a.1, "a task waits for writability and the poller is not watching for it");
}
fn pend(p: Poll<io::Result<()>>) { assert!(p.is_pending(), "not ready: no event has been delivered since"); }
fn ready(p: Poll<io::Result<()>>) { assert!(matches!(p, Poll::Ready(Ok(()))), "an event was delivered after the task registered"); }

// ---- C06 -------------------------------------------------------------------------------------------
proof! { fn c06_every_waiter() {
    bounds(1, 1, 4, 1); setup();
    let (a, fd) = source();
    let (mut fr, mut fw) = (a.readable(), a.writable());
    pend(poll_r(&a, 0)); pend(poll_w(&a, 1)); pend(poll_f(&mut fr, 2)); pend(poll_f(&mut fw, 3));
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    assert!(wakes(0) == b(r) && wakes(2) == b(r), "every task waiting to read is woken by readability, none otherwise");
    assert!(wakes(1) == b(wr) && wakes(3) == b(wr), "every task waiting to write is woken by writability, none otherwise");
    assert!(w().uncontained == 0, "a panicking waker is contained");
    watched(fd, !r, !wr);
    end((fr, fw)); end(a);
} }
proof! { fn c06_several_of_a_kind() {
    bounds(1, 1, 4, 3); setup();
    let (a, fd) = source();
    let (mut f0, mut f1, mut f2) = (a.readable(), a.readable(), a.readable());
    pend(poll_f(&mut f0, 0)); pend(poll_f(&mut f1, 1)); pend(poll_f(&mut f2, 2)); pend(poll_r(&a, 3));
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    let mut i = 0;
    while i < 4 { assert!(wakes(i) == b(r)); i += 1; }
    watched(fd, !r, false);
    end((f0, f1, f2)); end(a);
} }
proof! { fn c06_two_sources() {
    bounds(1, 1, 2, 2); setup();
    let (a, fa) = source();
    let (c, fc) = source();
    pend(poll_r(&a, 0)); pend(poll_r(&c, 1));
    let ((r0, w0), (r1, w1)) = (flags(), flags());
    deliver2((fa, r0, w0), (fc, r1, w1)).ok();
    assert!(wakes(0) == b(r0) && wakes(1) == b(r1), "an event wakes the waiters of its own source");
    watched(fa, !r0, false); watched(fc, !r1, false);
    end((a, c));
} }
proof! { fn c06_one_of_two_sources() {
    bounds(1, 1, 2, 2); setup();
    let (a, fa) = source();
    let (c, fc) = source();
    pend(poll_w(&a, 0)); pend(poll_w(&c, 1));
    let (r, wr) = flags();
    deliver(fc, r, wr).ok();
    assert!(wakes(0) == 0 && wakes(1) == b(wr));
    watched(fa, false, true); watched(fc, false, !wr);
    end((a, c));
} }
/// Failing to re-arm one source does not cost anybody a wake-up.
proof! { fn c06_rearm_fails() {
    bounds(1, 1, 4, 2); setup();
    let (a, fa) = source();
    let (c, fc) = source();
    pend(poll_r(&a, 0)); pend(poll_w(&a, 1)); pend(poll_r(&c, 2)); 
    fault(Site::PollModify, 12);
    let ((r0, w0), (r1, w1)) = (flags(), flags());
    deliver2((fa, r0, w0), (fc, r1, w1)).ok();
    assert!(wakes(0) >= b(r0) && wakes(1) >= b(w0) && wakes(2) >= b(r1), "wake-ups are lost when re-arming fails");
    kani::cover!(r0 && !w0 && r1);
    end((a, c));
} }
/// A failing or interrupted poller leaves every waiter waiting.
proof! { fn c06_wait_fails() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    let mut f = a.readable();
    pend(poll_r(&a, 0)); pend(poll_f(&mut f, 1));
    let code: i32 = kani::any();
    kani::assume(code > 0);
    fault(Site::PollWait, code);
    let r = react(None);
    assert!(wakes(0) == 0 && wakes(1) == 0);
    assert!(r.is_ok() == (code == 4), "an interruption is not an error");
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 1 && wakes(1) == 1);
    end(f); end(a);
} }
/// Timers due in the same pass are woken along with the I/O.
proof! { fn c06_with_timer() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    let d = any_instant(); kani::assume(d > now());
    let mut t = Timer::at(d);
    let _ = poll_timer(&mut t, 1);
    pend(poll_r(&a, 0));
    advance();
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 1 && wakes(1) == b(due(Some(d))));
    end((a, t));
} }
/// Waking calls back into the reactor: nothing it needs is locked.
fn reenter(_: usize) {
    unsafe { xworld::ON_WAKE = None; }
    let (a, _) = source();
    pend(poll_r(&a, 5));
    drop(a);
    let mut t = Timer::after(Duration::from_secs(1));
    let _ = poll_timer(&mut t, 6);
}
fn reenter_timer(_: usize) {
    unsafe { xworld::ON_WAKE = None; }
    let mut t = Timer::at(now() + Duration::from_secs(1));
    let _ = poll_timer(&mut t, 6);
    core::mem::forget(t);
    pend(poll_r(src(), 5));
}
proof! { fn c06_reentrant_io() {
    bounds(2, 2, 2, 2); setup();
    let (a, fd) = source();
    pend(poll_r(&a, 0));
    unsafe { xworld::ON_WAKE = Some(reenter); }
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 1);
    end(a);
} }
proof! { fn c06_reentrant_timer() {
    bounds(1, 1, 1, 1); setup();
    set_now(Instant { secs: 5, nanos: 0 });
    let (a, fd) = source();
    with_static(&a);
    let mut t = Timer::at(now() + Duration::from_secs(1));
    let _ = poll_timer(&mut t, 0);
    set_now(Instant { secs: 7, nanos: 0 });
    unsafe { xworld::ON_WAKE = Some(reenter_timer); }
    react0();
    assert!(wakes(0) == 1);
    watched(fd, true, false);
    end(t); end(a);
} }

// ---- C07 -------------------------------------------------------------------------------------------
/// Two waiters of every combination of kinds; both directions are watched as needed, also after an event.
fn both(k0: u8, k1: u8) {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    let (mut f0, mut f1) = (a.readable(), a.readable());
    let (mut g0, mut g1) = (a.writable(), a.writable());
    match k0 { 0 => pend(poll_r(&a, 0)), 1 => pend(poll_w(&a, 0)), 2 => pend(poll_f(&mut f0, 0)), _ => pend(poll_f(&mut g0, 0)) }
    let (r0, w0) = (k0 % 2 == 0, k0 % 2 == 1);
    watched(fd, r0, w0);
    match k1 { 0 => pend(poll_r(&a, 1)), 1 => pend(poll_w(&a, 1)), 2 => pend(poll_f(&mut f1, 1)), _ => pend(poll_f(&mut g1, 1)) }
    let (r1, w1) = (k1 % 2 == 0, k1 % 2 == 1);
    watched(fd, r0 || r1, w0 || w1);
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    watched(fd, (r0 || r1) && !r, (w0 || w1) && !wr);
    end((f0, f1, g0, g1)); end(a);
}
macro_rules! pairs { ($($n:ident $a:literal $b:literal),*) => { $( proof! { fn $n() { both($a, $b); } } )* } }
pairs! { c07_pair_00 0 0, c07_pair_01 0 1, c07_pair_02 0 2, c07_pair_03 0 3, c07_pair_10 1 0, c07_pair_11 1 1, c07_pair_12 1 2, c07_pair_13 1 3,
         c07_pair_20 2 0, c07_pair_21 2 1, c07_pair_22 2 2, c07_pair_23 2 3, c07_pair_30 3 0, c07_pair_31 3 1, c07_pair_32 3 2, c07_pair_33 3 3 }
/// An event while nobody waits does not leave a later waiter unwatched.
proof! { fn c07_after_idle_event() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    pend(poll_r(&a, 0)); watched(fd, true, false);
    pend(poll_w(&a, 1)); watched(fd, true, true);
    deliver(fd, true, true).ok();
    ready(poll_r(&a, 0)); pend(poll_r(&a, 0)); watched(fd, true, false);
    end(a);
} }
/// Cancelling a waiter does not take the interest away from another, nor from one that comes later.
proof! { fn c07_after_cancel() {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    let (mut f0, mut f1) = (a.readable(), a.readable());
    pend(poll_f(&mut f0, 0)); pend(poll_f(&mut f1, 1));
    drop(f0);
    watched(fd, true, false);
    pend(poll_w(&a, 2)); watched(fd, true, true);
    drop(f1);
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    watched(fd, false, !wr);
    let mut f3 = a.readable();
    pend(poll_f(&mut f3, 3)); watched(fd, true, !wr);
    end(f3); end(a);
} }
proof! { fn c07_cancel_then_wait() {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    let mut f0 = a.readable();
    pend(poll_f(&mut f0, 0));
    drop(f0);
    pend(poll_w(&a, 2)); watched(fd, false, true);
    pend(poll_r(&a, 1)); watched(fd, true, true);
    end(a);
} }
/// A woken waiter that polls again without consuming readiness is watched again.
proof! { fn c07_waits_again() {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    let (mut f0, mut g0) = (a.readable(), a.writable());
    pend(poll_f(&mut f0, 0)); pend(poll_f(&mut g0, 1));
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    let (p, q) = (poll_f(&mut f0, 0), poll_f(&mut g0, 1));
    assert!(p.is_ready() == r && q.is_ready() == wr);
    watched(fd, !r, !wr);
    drop(f0); drop(g0);
    let (mut f0, mut g0) = (a.readable(), a.writable());
    pend(poll_f(&mut f0, 0)); watched(fd, true, false);
    pend(poll_f(&mut g0, 1)); watched(fd, true, true);
    end((f0, g0)); end(a);
} }
/// If the interest cannot be registered the waiter is told, and may try again.
proof! { fn c07_arm_fails_poll() {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    let rd: bool = kani::any();
    fault(Site::PollModify, 12);
    let p = if rd { poll_r(&a, 0) } else { poll_w(&a, 0) };
    assert!(matches!(p, Poll::Ready(Err(_))), "the error is reported");
    let p = if rd { poll_r(&a, 0) } else { poll_w(&a, 0) };
    if p.is_pending() { watched(fd, rd, !rd); }
    end(a);
} }
proof! { fn c07_arm_fails_future() {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    fault(Site::PollModify, 12);
    let mut f = a.readable();
    let p = poll_f(&mut f, 0);
    assert!(matches!(p, Poll::Ready(Err(_))), "the error is reported");
    drop(f);
    let mut f = a.readable();
    pend(poll_f(&mut f, 0)); watched(fd, true, false);
    end(f); end(a);
} }
/// ... also when it is another task that comes later, while the failed future is still around.
proof! { fn c07_arm_fails_other() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    fault(Site::PollModify, 12);
    let mut f = a.readable();
    let p = poll_f(&mut f, 0);
    assert!(matches!(p, Poll::Ready(Err(_))), "the error is reported");
    let p = poll_r(&a, 1);
    if p.is_pending() { watched(fd, true, false); }
    end(f); end(a);
} }

// ---- C08 -------------------------------------------------------------------------------------------
static mut SRC: *const Async<Sock> = core::ptr::null();
fn src() -> &'static Async<Sock> { unsafe { &*SRC } }
fn with_static(a: &Async<Sock>) { unsafe { SRC = a; } }

proof! { fn c08_event_makes_ready() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    let mut f = a.readable();
    pend(poll_r(&a, 0)); pend(poll_f(&mut f, 1));
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    let (p, q) = (poll_r(&a, 0), poll_f(&mut f, 1));
    assert!(p.is_ready() == r && q.is_ready() == r, "ready exactly if readability was reported");
    // Readiness is consumed.
    pend(poll_r(&a, 0));
    watched(fd, true, false);
    end(f); end(a);
} }
proof! { fn c08_event_makes_ready_write() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    let mut f = a.writable();
    pend(poll_w(&a, 0)); pend(poll_f(&mut f, 1));
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    let (p, q) = (poll_w(&a, 0), poll_f(&mut f, 1));
    assert!(p.is_ready() == wr && q.is_ready() == wr, "ready exactly if writability was reported");
    pend(poll_w(&a, 0));
    watched(fd, false, true);
    end(f); end(a);
} }
/// Events from before a task starts to wait do not count.
proof! { fn c08_old_event() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    let mut f = a.readable();
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    if kani::any() { react(None).ok(); }
    pend(poll_r(&a, 0)); pend(poll_f(&mut f, 1));
    watched(fd, true, false);
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 1 && wakes(1) == 1);
    ready(poll_r(&a, 0)); ready(poll_f(&mut f, 1));
    end(f); end(a);
} }
/// An event collected by a pass that was already under way may predate the task's attempt: it wakes the
/// task, and does not count as readiness.
fn register_poll() { pend(poll_r(src(), 0)); }
proof! { fn c08_during_wait_poll() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    with_static(&a);
    if kani::any() { deliver(fd, true, false).ok(); }
    during_wait(register_poll);
    deliver(fd, true, false).ok();
    unsafe { DURING_WAIT = None; }
    assert!(wakes(0) == 1);
    pend(poll_r(&a, 0));
    watched(fd, true, false);
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 2);
    ready(poll_r(&a, 0));
    end(a);
} }
static mut FUT: Option<crate::Readable<'static, Sock>> = None;
fn register_fut() { unsafe { FUT = Some(src().readable()); pend(poll_f(FUT.as_mut().unwrap(), 0)); } }
proof! { fn c08_during_wait_future() {
    bounds(1, 1, 2, 1); setup();
    let (a, fd) = source();
    with_static(&a);
    if kani::any() { deliver(fd, true, false).ok(); }
    during_wait(register_fut);
    deliver(fd, true, false).ok();
    unsafe { DURING_WAIT = None; }
    assert!(wakes(0) == 1);
    let f = unsafe { FUT.as_mut().unwrap() };
    pend(poll_f(f, 0));
    watched(fd, true, false);
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 2);
    ready(poll_f(f, 0));
    end(a);
} }
/// Passes that report nothing about the source change nothing.
proof! { fn c08_idle_passes() {
    bounds(1, 1, 2, 2); setup();
    let (a, fd) = source();
    let (c, fc) = source();
    let mut f = a.readable();
    pend(poll_r(&a, 0)); pend(poll_f(&mut f, 1));
    deliver(fc, true, true).ok();
    assert!(wakes(0) == 0 && wakes(1) == 0);
    pend(poll_r(&a, 0)); pend(poll_f(&mut f, 1));
    deliver(fd, true, false).ok();
    ready(poll_r(&a, 0)); ready(poll_f(&mut f, 1));
    end(f); end((a, c));
} }
/// Each waiter sees the event, in whatever order they look.
proof! { fn c08_each_waiter() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    let (mut f, mut g) = (a.readable(), a.readable());
    pend(poll_f(&mut f, 1)); pend(poll_f(&mut g, 2)); pend(poll_r(&a, 0));
    deliver(fd, true, false).ok();
    ready(poll_f(&mut g, 2)); ready(poll_r(&a, 0)); drop(g); ready(poll_f(&mut f, 1));
    end(f); end(a);
} }

// ---- C09 -------------------------------------------------------------------------------------------
proof! { fn c09_cancel_one() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    let (mut f, mut g) = (a.readable(), a.readable());
    pend(poll_f(&mut f, 0)); pend(poll_f(&mut g, 1)); pend(poll_r(&a, 2));
    if kani::any() { drop(f); deliver(fd, true, false).ok(); assert!(wakes(0) == 0 && wakes(1) == 1 && wakes(2) == 1); end(g); }
    else { drop(g); deliver(fd, true, false).ok(); assert!(wakes(0) == 1 && wakes(1) == 0 && wakes(2) == 1); end(f); }
    end(a);
} }
proof! { fn c09_slot_reuse() {
    bounds(1, 1, 3, 3); setup();
    let (a, fd) = source();
    let (mut f, mut g, mut h) = (a.readable(), a.readable(), a.readable());
    pend(poll_f(&mut f, 0)); pend(poll_f(&mut g, 1));
    drop(f);
    pend(poll_f(&mut h, 2));
    drop(g);
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 0 && wakes(1) == 0 && wakes(2) == 1, "a cancelled waiter takes nobody with it");
    ready(poll_f(&mut h, 2));
    end(h); end(a);
} }
proof! { fn c09_drop_after_wake() {
    bounds(1, 1, 3, 3); setup();
    let (a, fd) = source();
    let (mut f, mut g) = (a.writable(), a.writable());
    pend(poll_f(&mut f, 0));
    deliver(fd, false, true).ok();
    assert!(wakes(0) == 1);
    pend(poll_f(&mut g, 1));
    if kani::any() { ready(poll_f(&mut f, 0)); }
    drop(f);
    watched(fd, false, true);
    deliver(fd, false, true).ok();
    assert!(wakes(0) == 1 && wakes(1) == 1);
    ready(poll_f(&mut g, 1));
    end(g); end(a);
} }
/// A future moved to another task wakes that task only.
proof! { fn c09_future_changes_task() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    let mut f = a.readable();
    pend(poll_f(&mut f, 0)); pend(poll_f(&mut f, 1));
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 0 && wakes(1) == 1);
    ready(poll_f(&mut f, 1));
    end(f); end(a);
} }
/// The polling functions keep one task per direction: the one displaced is woken.
proof! { fn c09_displaced_task() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    pend(poll_r(&a, 0)); pend(poll_w(&a, 1));
    pend(poll_r(&a, 0)); pend(poll_w(&a, 1));
    assert!(wakes(0) == 0 && wakes(1) == 0, "polling again from the same task wakes nobody");
    pend(poll_r(&a, 2));
    assert!(wakes(0) == 1 && wakes(1) == 0, "the displaced task is woken");
    assert!(w().uncontained == 0, "a panicking waker is contained");
    watched(fd, true, true);
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 1 && wakes(1) == 0 && wakes(2) == 1);
    end(a);
} }
proof! { fn c09_displaced_does_not_disturb_futures() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    let mut f = a.readable();
    pend(poll_f(&mut f, 3));
    pend(poll_r(&a, 0)); pend(poll_r(&a, 1));
    assert!(wakes(3) == 0 && wakes(0) == 1);
    deliver(fd, true, false).ok();
    assert!(wakes(3) == 1 && wakes(1) == 1 && wakes(0) == 1);
    end(f); end(a);
} }
/// Directions do not interfere.
proof! { fn c09_directions() {
    bounds(1, 1, 3, 2); setup();
    let (a, fd) = source();
    let (mut f, mut g) = (a.readable(), a.writable());
    pend(poll_f(&mut f, 0)); pend(poll_f(&mut g, 1));
    drop(f);
    watched(fd, false, true);
    let (r, wr) = flags();
    deliver(fd, r, wr).ok();
    assert!(wakes(0) == 0 && wakes(1) == b(wr));
    end(g); end(a);
} }
/// Dropping one source leaves the waiters of another alone, also when its place is taken.
proof! { fn c09_sources() {
    bounds(1, 1, 3, 2); setup();
    let (a, _) = source();
    let (c, fc) = source();
    pend(poll_r(&a, 0)); pend(poll_r(&c, 1));
    drop(a);
    let (d, fd) = source();
    pend(poll_r(&d, 2));
    let (r, wr) = flags();
    deliver(fc, r, wr).ok();
    assert!(wakes(0) == 0 && wakes(1) == b(r) && wakes(2) == 0);
    watched(fd, true, false);
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 0 && wakes(1) == b(r) && wakes(2) == 1);
    end((c, d));
} }
