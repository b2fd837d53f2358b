//! Contracts of `Timer`: value semantics (C01, C02).
use crate::vh_common::*;

/// `t` behaves as a timer scheduled for `when` with `period`, over two later polls at arbitrary times.
fn behaves_as(t: &mut Timer, when: Option<Instant>, period: Duration) {
    assert!(t.will_fire() == when.is_some());
    advance();
    let next = poll_spec(t, 0, when, period);
    kani::cover!(due(when), "fires");
    kani::cover!(!due(when), "pending");
    advance();
    let _ = poll_spec(t, 0, next, period);
    kani::cover!(due(when) && due(next), "fires twice");
}
/// An arbitrary timer that was never polled: every constructor yields one of these.
fn any_timer() -> (Timer, Option<Instant>, Duration) {
    let (start, period) = (any_instant(), any_duration());
    let mut t = Timer::interval_at(start, period);
    (t, Some(start), period)
}
/// Likewise, already polled once, and so possibly registered.
fn any_polled_timer() -> (Timer, Option<Instant>, Duration) {
    let (mut t, when, period) = any_timer();
    let when = poll_spec(&mut t, 1, when, period);
    (t, when, period)
}

proof! { fn c02_ctor_at() { setup(); let d = any_instant(); let mut t = Timer::at(d); behaves_as(&mut t, Some(d), Duration::MAX); core::mem::forget(t); } }
proof! { fn c02_ctor_after() { setup(); let d = any_duration(); let mut t = Timer::after(d); let e = now().checked_add(d); behaves_as(&mut t, e, Duration::MAX); core::mem::forget(t); } }
proof! { fn c02_ctor_interval() { setup(); let d = any_duration(); let mut t = Timer::interval(d); let e = now().checked_add(d); behaves_as(&mut t, e, d); core::mem::forget(t); } }
proof! { fn c02_ctor_interval_at() { setup(); let (s, d) = (any_instant(), any_duration()); let mut t = Timer::interval_at(s, d); behaves_as(&mut t, Some(s), d); core::mem::forget(t); } }
proof! { fn c02_ctor_never() { setup(); let mut t = Timer::never(); assert!(!t.will_fire()); advance(); assert!(poll_timer(&mut t, 0) == Poll::Pending); assert!(!t.will_fire()); react0(); assert!(wakes(0) == 0); core::mem::forget(t); } }
proof! { fn c02_from_never() {
    setup();
    let mut t = Timer::never();
    let _ = poll_timer(&mut t, 1);
    let (i, d) = (any_instant(), any_duration());
    let op: u8 = kani::any();
    let (e, p) = match op {
        0 => { t.set_at(i); (Some(i), Duration::MAX) }
        1 => { t.set_after(d); (now().checked_add(d), Duration::MAX) }
        2 => { t.set_interval(d); (now().checked_add(d), d) }
        _ => { t.set_interval_at(i, d); (Some(i), d) }
    };
    behaves_as(&mut t, e, p);
    core::mem::forget(t);
} }
/// A one-shot timer never yields a second value.
proof! { fn c02_one_shot() {
    setup();
    let d = any_instant();
    let mut t = Timer::at(d);
    advance();
    kani::assume(d <= now());
    assert!(poll_timer(&mut t, 0) == Poll::Ready(Some(d)));
    advance();
    assert!(poll_timer(&mut t, 0) == Poll::Pending);
    core::mem::forget(t);
} }
/// As a future, the timer completes with the same value.
proof! { fn c02_future_view() {
    setup();
    let (mut t, when, period) = any_timer();
    advance();
    let wk = waker(0);
    let r = Future::poll(Pin::new(&mut t), &mut Context::from_waker(&wk));
    assert!(r == if due(when) { Poll::Ready(when.unwrap()) } else { Poll::Pending });
    core::mem::forget(t);
} }

proof! { fn c02_set_at() { setup(); let (mut t, _, _) = any_polled_timer(); let d = any_instant(); t.set_at(d); behaves_as(&mut t, Some(d), Duration::MAX); core::mem::forget(t); } }
proof! { fn c02_set_after() { setup(); let (mut t, _, _) = any_polled_timer(); advance(); let d = any_duration(); t.set_after(d); let e = now().checked_add(d); behaves_as(&mut t, e, Duration::MAX); core::mem::forget(t); } }
proof! { fn c02_set_interval() { setup(); let (mut t, _, _) = any_polled_timer(); advance(); let d = any_duration(); t.set_interval(d); let e = now().checked_add(d); behaves_as(&mut t, e, d); core::mem::forget(t); } }
proof! { fn c02_set_interval_at() { setup(); let (mut t, _, _) = any_polled_timer(); let (s, d) = (any_instant(), any_duration()); t.set_interval_at(s, d); behaves_as(&mut t, Some(s), d); core::mem::forget(t); } }

// ---- C01: with a clock that runs while the code executes --------------------------------------------
proof! { fn c01_poll_not_early() {
    setup();
    let (mut t, when, _) = any_timer();
    clock_runs();
    let before = now();
    let r = poll_timer(&mut t, 0);
    match r {
        Poll::Ready(v) => { assert!(v == when, "the value is the scheduled instant"); assert!(when.unwrap() <= now(), "completed before its instant"); }
        Poll::Pending => assert!(when.unwrap() > before, "not completed although due when polled"),
    }
    kani::cover!(r.is_ready()); kani::cover!(r.is_pending());
    core::mem::forget(t);
} }
proof! { fn c01_poll_registered_not_early() {
    setup();
    let (mut t, when, _) = any_polled_timer();
    clock_runs();
    let before = now();
    let r = poll_timer(&mut t, 0);
    match r {
        Poll::Ready(v) => { assert!(v == when, "the value is the scheduled instant"); assert!(when.unwrap() <= now(), "completed before its instant"); }
        Poll::Pending => assert!(when.is_none() || when.unwrap() > before, "not completed although due when polled"),
    }
    core::mem::forget(t);
} }
fn not_before(t: &mut Timer, t0: Instant, d: Duration) {
    clock_runs();
    if let Poll::Ready(v) = poll_timer(t, 0) {
        let v = v.unwrap();
        assert!(t0.checked_add(d).map_or(false, |e| v >= e), "scheduled earlier than the duration asked for");
        assert!(v <= now());
        kani::cover!(true, "completes");
    }
}
proof! { fn c01_after() { setup(); clock_runs(); let t0 = now(); let d = any_duration(); let mut t = Timer::after(d); not_before(&mut t, t0, d); core::mem::forget(t); } }
proof! { fn c01_interval() { setup(); clock_runs(); let t0 = now(); let d = any_duration(); let mut t = Timer::interval(d); not_before(&mut t, t0, d); core::mem::forget(t); } }
proof! { fn c01_set_after() { setup(); let (mut t, _, _) = any_polled_timer(); clock_runs(); let t0 = now(); let d = any_duration(); t.set_after(d); not_before(&mut t, t0, d); core::mem::forget(t); } }
proof! { fn c01_set_interval() { setup(); let (mut t, _, _) = any_polled_timer(); clock_runs(); let t0 = now(); let d = any_duration(); t.set_interval(d); not_before(&mut t, t0, d); core::mem::forget(t); } }
/// The reactor does not wake a timer's task early either, whatever the poller reports.
proof! { fn c01_wake_not_early() {
    setup();
    let (mut t, when, _) = any_timer();
    kani::assume(!due(when));
    let _ = poll_timer(&mut t, 0);
    clock_runs();
    react(if kani::any() { Some(any_duration()) } else { None }).ok();
    assert!(wakes(0) == 0 || due(when), "woken before its instant");
    kani::cover!(wakes(0) == 1); kani::cover!(wakes(0) == 0);
    core::mem::forget(t);
} }
