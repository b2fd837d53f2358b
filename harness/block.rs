//! `block_on`. C13: a wake-up is never slept through. C14: what a run leaves behind, nesting, polls.
#![allow(dead_code, unused_imports, static_mut_refs)]
use crate::vh_common::*;
use std::future::poll_fn;

/// The task being blocked on, and the thread (ghost thread 1) that will wake it.
struct St { has: bool, done: bool, fired: bool, woken: bool, polls: u8, waits: u8, parks: u8, held: Option<crate::reactor::ReactorLock<'static>>, step: u32, fire_at: u32, spurious: u8, took: Duration }
static mut S: St = St { has: false, done: false, fired: false, woken: false, polls: 0, waits: 0, parks: 0, held: None, step: 0, fire_at: NEVER, spurious: 0, took: Duration::ZERO };
const NEVER: u32 = 1000;
xstd::place!(fn wk VH_BLOCK_WAKER: Waker);
fn s() -> &'static mut St { unsafe { &mut *(&raw mut S) } }

/// The other thread completes the operation, then wakes the task.
fn fire() {
    if s().fired { return; }
    s().fired = true;
    let t = w().tid;
    w().tid = 1;
    s().done = true;
    s().woken = true;
    if s().has { unsafe { &*wk() }.wake_by_ref(); }
    w().tid = t;
}
fn step() {
    if w().tid != 0 || !s().has || s().fired { return; }
    if s().step == s().fire_at { fire(); }
    s().step += 1;
}
fn on_park(id: usize) {
    if w().tid != 0 { return; }
    s().parks += 1;
    unsafe { xworld::ON_INTERFERE = None; }
    let l = Reactor::get().try_lock();
    unsafe { xworld::ON_INTERFERE = Some(step); }
    assert!(l.is_some() || s().held.is_some(), "a thread goes to sleep while holding the reactor");
    drop(l);
    step();
    if !w().token[id] {
        assert!(!s().woken, "block_on parks although its future has been woken");
        fire();
        assert!(w().token[id], "a wake-up does not reach the parked thread");
    }
}
fn on_wait(ev: &mut polling::Events, t: Option<Duration>) {
    if w().tid != 0 { return; }
    if t == Some(Duration::ZERO) { return; }
    s().waits += 1;
    step();
    set_now(now().checked_add(s().took).unwrap());
    if s().woken { assert!(w().notify_pending, "block_on waits for I/O although its future has been woken"); }
    else if s().waits <= s().spurious { fault(Site::PollWait, 4); }
    else {
        fire();
        assert!(w().notify_pending, "a wake-up does not end the wait for I/O");
    }
}
fn poll_task(cx: &mut Context<'_>) -> Poll<u8> {
    s().polls += 1;
    s().woken = false;
    assert!(s().polls <= 2, "the future is polled again without having been woken");
    s().has = true; unsafe { wk().write(cx.waker().clone()) };
    if s().done { Poll::Ready(7) } else { Poll::Pending }
}
fn start() { setup(); set_now(Instant { secs: 1000, nanos: 0 }); bounds(2, 2, 2, 2); }
fn env() { start(); unsafe { xworld::ON_INTERFERE = Some(step); xworld::ON_PARK = Some(on_park); polling::ON_WAIT = Some(on_wait); } }
fn run() {
    let r = block_on(poll_fn(poll_task));
    assert!(r == 7);
    assert!(s().done);
}
/// Woken at step `k` of at most `n`; `spurious` waits end for nothing first, each taking `us` microseconds.
fn woken(k: u32, n: u32, held: bool, spurious: u8, us: u64) {
    env();
    s().fire_at = k; s().spurious = spurious; s().took = Duration::from_micros(us);
    if held { s().held = Some(Reactor::get().lock()); }
    run();
    // Every step there is has been tried.
    xworld::bound!(s().step <= n, "BOUND steps");
}
macro_rules! woken { ($m:ident $b:literal $held:literal $sp:literal $us:literal: $($n:ident $k:literal)*) => {
    pub(crate) mod $m { use super::*; $( proof! { fn $n() unwind 10 { woken($k, $b, $held, $sp, $us); } } )* }
} }
// The other thread wakes the task at any moment at all: before every step that another thread could notice.
woken! { woken 12 false 0 1: c13_step_0 0 c13_step_1 1 c13_step_2 2 c13_step_3 3 c13_step_4 4 c13_step_5 5 c13_step_6 6 c13_step_7 7 c13_step_8 8 c13_step_9 9 c13_step_10 10 c13_step_11 11 }
// ... while that thread has the reactor,
woken! { woken_taken 8 true 0 1: c13_step_0 0 c13_step_1 1 c13_step_2 2 c13_step_3 3 c13_step_4 4 c13_step_5 5 c13_step_6 6 c13_step_7 7 }
// ... after a wait that ended for nothing,
woken! { woken_spurious 20 false 1 1: c13_step_0 0 c13_step_1 1 c13_step_2 2 c13_step_3 3 c13_step_4 4 c13_step_5 5 c13_step_6 6 c13_step_7 7 c13_step_8 8 c13_step_9 9 c13_step_10 10 c13_step_11 11 c13_step_12 12 c13_step_13 13 c13_step_14 14 c13_step_15 15 c13_step_16 16 c13_step_17 17 c13_step_18 18 c13_step_19 19 }
// ... or one long enough for block_on to hand over the reactor.
woken! { woken_long 16 false 1 1000: c13_step_0 0 c13_step_1 1 c13_step_2 2 c13_step_3 3 c13_step_4 4 c13_step_5 5 c13_step_6 6 c13_step_7 7 c13_step_8 8 c13_step_9 9 c13_step_10 10 c13_step_11 11 c13_step_12 12 c13_step_13 13 c13_step_14 14 c13_step_15 15 }
proof! { fn c13_woken_while_asleep() unwind 10 { woken(NEVER, NEVER, false, 0, 1); } }
proof! { fn c13_woken_while_asleep_spurious() unwind 10 { woken(NEVER, NEVER, false, 2, 1); } }
proof! { fn c13_woken_while_asleep_taken() unwind 10 { woken(NEVER, NEVER, true, 0, 1); } }

/// The future wakes itself while it is being polled.
fn poll_self(cx: &mut Context<'_>) -> Poll<u8> {
    s().polls += 1;
    if s().polls == 2 { return Poll::Ready(7); }
    assert!(s().polls == 1);
    cx.waker().wake_by_ref();
    s().woken = true; s().fired = true; s().done = true;
    Poll::Pending
}
proof! { fn c13_wakes_itself() unwind 6 { env(); assert!(block_on(poll_fn(poll_self)) == 7); assert!(s().waits == 0 && s().parks == 0); } }
proof! { fn c13_wakes_itself_reactor_taken() unwind 6 { env(); s().held = Some(Reactor::get().lock()); assert!(block_on(poll_fn(poll_self)) == 7); assert!(s().waits == 0 && s().parks == 0); } }

/// The wake-up comes from the reactor that block_on itself is running: a timer fires.
static mut T: Option<Timer> = None;
fn poll_t(cx: &mut Context<'_>) -> Poll<u8> {
    s().polls += 1;
    match Stream::poll_next(Pin::new(unsafe { T.as_mut().unwrap() }), cx) { Poll::Ready(_) => Poll::Ready(7), Poll::Pending => Poll::Pending }
}
fn wait_t(_: &mut polling::Events, t: Option<Duration>) {
    if w().tid != 0 || t == Some(Duration::ZERO) { return; }
    s().waits += 1;
    assert!(s().waits <= 1, "block_on waits again after its timer has fired");
    let d = t.expect("waits forever although a timer is pending");
    set_now(now().checked_add(d).unwrap());
}
proof! { fn c13_timer() unwind 6 {
    start();
    let d = Duration::from_micros(100);
    unsafe { T = Some(Timer::after(d)); xworld::ON_PARK = Some(no_park); polling::ON_WAIT = Some(wait_t); }
    assert!(block_on(poll_fn(poll_t)) == 7);
    assert!(s().waits == 1 && s().polls == 2);
} }
fn no_park(id: usize) { if w().tid == 0 { assert!(w().token[id], "block_on sleeps for ever"); } }

/// ... or an I/O event arrives.
static mut A: Option<Async<Sock>> = None;
fn poll_a(cx: &mut Context<'_>) -> Poll<u8> {
    s().polls += 1;
    match unsafe { A.as_ref().unwrap() }.poll_readable(cx) { Poll::Ready(r) => { assert!(r.is_ok()); Poll::Ready(7) } Poll::Pending => Poll::Pending }
}
fn wait_a(ev: &mut polling::Events, t: Option<Duration>) {
    if w().tid != 0 { return; }
    if t == Some(Duration::ZERO) { return; }
    s().waits += 1;
    let j = xworld::poll_find(FD).unwrap();
    let p = &mut w().poll[j];
    if !p.r { assert!(false, "block_on waits for an event it has not asked for"); }
    ev.push(polling::Event::new(p.key, true, false));
    p.r = false;
}
const FD: i32 = xworld::FD0;
proof! { fn c13_io_event() unwind 6 {
    start();
    unsafe { A = Some(Async::new(Sock::new()).unwrap()); xworld::ON_PARK = Some(no_park); polling::ON_WAIT = Some(wait_a); }
    assert!(block_on(poll_fn(poll_a)) == 7);
    assert!(s().waits == 1 && s().polls == 2);
} }
/// A long wait spent serving others: the reactor is handed over, to the helper thread if nobody else.
fn wait_long(_: &mut polling::Events, t: Option<Duration>) {
    if w().tid != 0 || t == Some(Duration::ZERO) { return; }
    s().waits += 1;
    set_now(now().checked_add(Duration::from_millis(1)).unwrap());
    assert!(s().waits <= 1, "block_on keeps the reactor to itself");
}
fn park_long(id: usize) {
    if w().tid != 0 { return; }
    s().parks += 1;
    assert!(Reactor::get().try_lock().is_some(), "a thread goes to sleep while holding the reactor");
    assert!(w().unparks[0] > 0, "a thread gives up the reactor without telling the helper thread");
    fire();
    assert!(w().token[id], "a wake-up does not reach the parked thread");
}
proof! { fn c13_hands_over_the_reactor() unwind 6 {
    start();
    unsafe { xworld::ON_PARK = Some(park_long); polling::ON_WAIT = Some(wait_long); }
    run();
    assert!(s().waits == 1 && s().parks == 1);
} }

// ---- C14 ---------------------------------------------------------------

/// A future that is ready at once, having woken itself or not, leaves no trace for the next run.
fn ready_self(cx: &mut Context<'_>) -> Poll<u8> { if kani::any() { cx.waker().wake_by_ref(); } Poll::Ready(1) }
proof! { fn c14_no_stale_notification() unwind 6 {
    env();
    assert!(block_on(poll_fn(ready_self)) == 1);
    run();
    assert!(s().polls == 2);
} }
/// The value comes back unchanged and the future is polled exactly once.
proof! { fn c14_ready_at_once() unwind 6 {
    env();
    let v: u64 = kani::any();
    let mut n = 0u8;
    let r = block_on(poll_fn(|_| { n += 1; Poll::Ready(v) }));
    assert!(r == v && n == 1);
    assert!(s().waits == 0 && s().parks == 0);
} }
/// When the last run ends, the helper thread is told, and no longer counts anybody as active.
static mut ACTIVE: i32 = 0;
fn helper_round() {
    // the helper thread looks around: it must not keep its distance any more
    let t = w().tid;
    w().tid = 1;
    unsafe { xworld::ON_PARK_TIMEOUT = Some(helper_sleeps); polling::ON_WAIT = Some(helper_waits); }
    xstd::thread::run_spawned();
    w().tid = t;
}
fn helper_sleeps(_: usize, _: Duration) { assert!(unsafe { ACTIVE } > 0, "the helper thread backs off although no block_on is running"); kani::cover!(); kani::assume(false); }
fn helper_waits(_: &mut polling::Events, _: Option<Duration>) { s().waits += 1; if s().waits > 2 { kani::cover!(); kani::assume(false); } }
fn at_unpark(id: usize) { if id == 0 && w().tid == 0 && unsafe { ACTIVE } == 0 { helper_round(); } }
fn setup_helper() { xworld::w().keep_spawned = true; start(); }
proof! { fn c14_end_is_announced() unwind 6 {
    setup_helper();
    let n = w().unparks[0];
    block_on(poll_fn(|_| Poll::Ready(1)));
    assert!(w().unparks[0] == n + 1, "the helper thread is not told that block_on has ended");
} }
proof! { fn c14_count_drops_before_the_announcement() unwind 6 {
    setup_helper();
    unsafe { xworld::ON_UNPARK = Some(at_unpark); }
    block_on(poll_fn(|_| Poll::Ready(1)));
    assert!(false, "the helper thread is not told that block_on has ended");
} }
proof! { fn c14_inactive_after_nested() unwind 6 {
    setup_helper();
    block_on(poll_fn(|_| { block_on(poll_fn(|_| Poll::Ready(1))); Poll::Ready(1) }));
    helper_round();
} }
proof! { fn c14_active_while_running() unwind 6 {
    setup_helper();
    block_on(poll_fn(|_| { unsafe { ACTIVE = 1; polling::ON_WAIT = None; xworld::ON_PARK_TIMEOUT = Some(must_sleep); } w().tid = 1; unsafe { polling::ON_WAIT = Some(one_wait); } xstd::thread::run_spawned(); Poll::Ready(1) }));
} }
proof! { fn c14_active_outer_after_inner() unwind 6 {
    setup_helper();
    block_on(poll_fn(|_| {
        block_on(poll_fn(|_| Poll::Ready(1)));
        unsafe { ACTIVE = 1; xworld::ON_PARK_TIMEOUT = Some(must_sleep); polling::ON_WAIT = Some(one_wait); }
        w().tid = 1; xstd::thread::run_spawned(); Poll::Ready(1)
    }));
} }
fn must_sleep(_: usize, _: Duration) { kani::cover!(); kani::assume(false); }
fn one_wait(_: &mut polling::Events, _: Option<Duration>) { s().waits += 1; assert!(s().waits <= 1, "the helper thread competes at full speed with a running block_on"); }

/// Nested runs have wakers of their own: waking the inner one does not count as waking the outer one.
static mut OUTER: Option<Waker> = None;
fn poll_outer(cx: &mut Context<'_>) -> Poll<u8> {
    s().polls += 1;
    if s().polls == 1 {
        unsafe { OUTER = Some(cx.waker().clone()); }
        let mut n = 0u8;
        let r = block_on(poll_fn(|icx| {
            assert!(!icx.waker().will_wake(cx.waker()), "a nested block_on shares its caller's waker");
            n += 1;
            if n == 2 { return Poll::Ready(3); }
            icx.waker().wake_by_ref();
            Poll::Pending
        }));
        assert!(r == 3);
        return Poll::Pending;
    }
    Poll::Ready(9)
}
fn wake_outer() { let t = w().tid; w().tid = 1; unsafe { OUTER.as_ref().unwrap().wake_by_ref() } w().tid = t; }
fn nest_park(id: usize) { if w().tid != 0 { return; } assert!(!w().token[id], "waking the inner run wakes the outer one"); s().parks += 1; assert!(s().polls == 1); wake_outer(); assert!(w().token[id], "the outer run can no longer be woken"); }
fn nest_wait(_: &mut polling::Events, t: Option<Duration>) {
    if w().tid != 0 || t == Some(Duration::ZERO) { return; }
    s().waits += 1;
    assert!(s().polls == 1);
    wake_outer();
    assert!(w().notify_pending, "the outer run can no longer be woken");
}
proof! { fn c14_nested_wakers_are_distinct() unwind 6 {
    start();
    unsafe { xworld::ON_PARK = Some(nest_park); polling::ON_WAIT = Some(nest_wait); }
    assert!(block_on(poll_fn(poll_outer)) == 9);
    assert!(s().polls == 2 && s().waits == 1, "waking the inner run wakes the outer one");
} }
/// Waking the outer task during the nested run is not lost.
fn poll_outer2(cx: &mut Context<'_>) -> Poll<u8> {
    s().polls += 1;
    if s().polls == 1 {
        let wk = cx.waker().clone();
        let other: bool = kani::any();
        block_on(poll_fn(|_| { if other { w().tid = 1; } wk.wake_by_ref(); w().tid = 0; Poll::Ready(()) }));
        return Poll::Pending;
    }
    Poll::Ready(9)
}
fn never_wait(_: &mut polling::Events, t: Option<Duration>) { if w().tid == 0 { assert!(t == Some(Duration::ZERO), "a wake-up of the outer run is lost"); } }
fn never_park(_: usize) { if w().tid == 0 { assert!(false, "a wake-up of the outer run is lost"); } }
proof! { fn c14_outer_woken_during_inner() unwind 6 {
    start();
    unsafe { xworld::ON_PARK = Some(never_park); polling::ON_WAIT = Some(never_wait); }
    assert!(block_on(poll_fn(poll_outer2)) == 9);
    assert!(s().polls == 2);
} }
/// After a run ends, no wake-up of a later task pokes the reactor as if this thread were waiting in it.
proof! { fn c14_not_blocked_after_the_run() unwind 6 {
    env();
    run();
    let n = w().notify_count;
    let wk = unsafe { &*wk() };
    w().tid = 1;
    unsafe { xworld::ON_INTERFERE = None; }
    wk.wake_by_ref();
    assert!(w().notify_count == n, "the reactor is interrupted for a thread that is not waiting in it");
} }
/// While the task is being polled, waking it from another thread does not interrupt the reactor.
proof! { fn c14_not_blocked_while_polling() unwind 6 {
    env();
    let mut n = 0u8;
    block_on(poll_fn(|cx| {
        n += 1;
        let k = w().notify_count;
        w().tid = 1; cx.waker().wake_by_ref(); w().tid = 0;
        assert!(w().notify_count == k, "the reactor is interrupted for a thread that is not waiting in it");
        if n == 2 { Poll::Ready(()) } else { s().woken = true; Poll::Pending }
    }));
    assert!(n == 2);
} }
