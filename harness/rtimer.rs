//! Contracts of the reactor's timer processing (C04) and of how long it sleeps (C05).
use crate::vh_common::*;

fn add(d: Instant, id: usize) -> Timer {
    kani::assume(d > now());
    let mut t = Timer::at(d);
    assert!(poll_timer(&mut t, id) == Poll::Pending);
    t
}
fn counts(n: usize, d: [Option<Instant>; 3]) {
    let mut i = 0;
    while i < n { assert!(wakes(i) == b(due(d[i])), "a pass wakes exactly the timers that are due, each once"); i += 1; }
}

proof! { fn c04_two() {
    bounds(2, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    advance(); react0(); counts(2, [Some(d0), Some(d1), None]);
    kani::cover!(wakes(0) == 1 && wakes(1) == 1); kani::cover!(wakes(0) == 1 && wakes(1) == 0); kani::cover!(wakes(0) == 0 && wakes(1) == 1);
    kani::cover!(d0 == d1 && wakes(0) == 1);
    advance(); react0(); counts(2, [Some(d0), Some(d1), None]);
    core::mem::forget((t0, t1));
} }
proof! { fn c04_three() {
    bounds(3, 3, 3, 1); setup();
    let (d0, d1, d2) = (any_instant(), any_instant(), any_instant());
    let (t0, t1, t2) = (add(d0, 0), add(d1, 1), add(d2, 2));
    advance(); react0(); counts(3, [Some(d0), Some(d1), Some(d2)]);
    kani::cover!(wakes(0) == 1 && wakes(1) == 1 && wakes(2) == 1);
    core::mem::forget((t0, t1, t2));
} }
/// One is dropped before the pass.
proof! { fn c04_two_remove() {
    bounds(3, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    drop(t0);
    advance(); react0(); counts(2, [None, Some(d1), None]);
    kani::cover!(d0 == d1 && wakes(1) == 1);
    core::mem::forget(t1);
} }
/// One is dropped after the reactor has taken both over.
proof! { fn c04_two_remove_later() {
    bounds(2, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    react0();
    drop(t1);
    advance(); react0(); counts(2, [Some(d0), None, None]);
    core::mem::forget(t0);
} }
/// Passes in between make no difference.
proof! { fn c04_added_between_passes() {
    bounds(1, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let t0 = add(d0, 0);
    advance(); react0();
    let e0 = wakes(0);
    assert!(e0 == b(due(Some(d0))));
    let t1 = add(d1, 1);
    advance(); react0(); counts(2, [Some(d0), Some(d1), None]);
    core::mem::forget((t0, t1));
} }
/// The queue of pending operations may fill up: nothing is lost or reordered.
proof! { fn c04_full_queue_insert() {
    tight_queue(); bounds(1, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    advance(); react0(); counts(2, [Some(d0), Some(d1), None]);
    core::mem::forget((t0, t1));
} }
proof! { fn c04_full_queue_remove() {
    tight_queue(); bounds(1, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    drop(t0);
    advance(); react0(); counts(2, [None, Some(d1), None]);
    core::mem::forget(t1);
} }
proof! { fn c04_full_queue_two() {
    tight_queue(); bounds(2, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    drop(t1);
    advance(); react0(); counts(2, [Some(d0), None, None]);
    core::mem::forget(t0);
} }


// ---- C05 -------------------------------------------------------------------------------------------
fn min_opt(a: Option<Duration>, b: Option<Duration>) -> Option<Duration> { match (a, b) { (None, x) | (x, None) => x, (Some(a), Some(b)) => Some(if a < b { a } else { b }) } }
fn until(d: Instant) -> Duration { d.saturating_duration_since(now()) }
fn any_timeout() -> Option<Duration> { if kani::any() { Some(any_duration()) } else { None } }

/// With no timer pending the reactor sleeps as long as the caller allows.
proof! { fn c05_no_timer() { bounds(1, 1, 1, 1); setup(); let t = any_timeout(); react(t).ok(); assert!(w().waits == 1); assert!(w().last_timeout == t, "sleeps as long as asked"); } }
/// Otherwise never past the earliest pending deadline, nor past what the caller allows.
proof! { fn c05_one_timer() {
    bounds(1, 1, 1, 1); setup();
    let d = any_instant();
    let t0 = add(d, 0);
    advance();
    let t = any_timeout();
    let u = until(d);
    react(t).ok();
    assert!(w().waits == 1);
    let l = w().last_timeout;
    assert!(l.is_some() && l.unwrap() <= u, "sleeps past a pending deadline");
    assert!(t.is_none() || l.unwrap() <= t.unwrap(), "sleeps longer than the caller allows");
    assert!(l == min_opt(t, Some(u)), "does not spin either");
    core::mem::forget(t0);
} }
proof! { fn c05_two_timers() {
    bounds(2, 2, 2, 1); setup();
    let (d0, d1) = (any_instant(), any_instant());
    let (t0, t1) = (add(d0, 0), add(d1, 1));
    advance();
    let t = any_timeout();
    let u = min_opt(Some(until(d0)), Some(until(d1)));
    react(t).ok();
    let l = w().last_timeout;
    assert!(l == min_opt(t, u));
    core::mem::forget((t0, t1));
} }
/// Timers that fell due while the reactor slept its time out are fired before it returns.
fn sleep_hook(_: &mut polling::Events, t: Option<Duration>) {
    // Times out: at least the timeout has passed.
    let before = now();
    advance();
    if let Some(t) = t { kani::assume(before.checked_add(t).map_or(false, |e| now() >= e)); } else { kani::assume(false); }
}
proof! { fn c05_fires_after_sleep() {
    bounds(1, 1, 1, 1); setup();
    let d = any_instant();
    let t0 = add(d, 0);
    advance();
    let t = any_timeout();
    unsafe { polling::ON_WAIT = Some(sleep_hook); }
    react(t).ok();
    assert!(w().last_timeout == Some(Duration::ZERO) || wakes(0) == b(due(Some(d))), "a deadline reached while sleeping is fired");
    kani::cover!(wakes(0) == 1 && w().last_timeout != Some(Duration::ZERO));
    core::mem::forget(t0);
} }
/// A timer registered while another thread sleeps in the reactor interrupts that sleep, after the
/// registration is visible to it.
static mut LATE: Option<Instant> = None;
fn late_hook() {
    let d = any_instant();
    kani::assume(d > now());
    w().notify_pending = false;
    let mut t = Timer::at(d);
    assert!(poll_timer(&mut t, 1) == Poll::Pending);
    assert!(w().notify_pending, "the sleeping reactor is notified of the new timer");
    assert!(w().notify_seq > w().push_seq, "notified only once the timer is registered");
    unsafe { LATE = Some(d); }
    core::mem::forget(t);
}
proof! { fn c05_registered_during_sleep() {
    bounds(1, 1, 1, 1); setup();
    during_wait(late_hook);
    react(None).ok();
    no_wait_hook();
    let d = unsafe { LATE.unwrap() };
    advance();
    let u = until(d);
    react(None).ok();
    assert!(w().last_timeout == Some(u));
    assert!(wakes(1) == b(due(Some(d))));
} }
/// Likewise rescheduling and a change of task.
fn late_set_hook() {
    let d = any_instant();
    kani::assume(d > now());
    let mut t = Timer::at(d);
    assert!(poll_timer(&mut t, 1) == Poll::Pending);
    w().notify_pending = false;
    let e = any_instant();
    match kani::any::<u8>() { 0 => t.set_at(e), 1 => t.set_interval_at(e, any_duration()), _ => { t.set_after(Duration::from_secs(1)); } }
    assert!(w().notify_pending, "the sleeping reactor is notified of the new deadline");
    assert!(w().notify_seq > w().push_seq || w().push_seq == 0, "notified only once the timer is registered");
    core::mem::forget(t);
}
proof! { fn c05_reset_during_sleep() { bounds(4, 2, 1, 1); setup(); during_wait(late_set_hook); react(None).ok(); } }
fn late_poll_hook() {
    let (d, p) = (any_instant(), any_duration());
    let mut t = Timer::interval_at(d, p);
    let _ = poll_timer(&mut t, 1);
    w().notify_pending = false;
    advance();
    kani::assume(t.will_fire());
    let r = poll_timer(&mut t, 2);
    assert!(!t.will_fire() || w().notify_pending, "the sleeping reactor is notified of the next deadline");
    kani::cover!(r.is_ready() && t.will_fire()); kani::cover!(r.is_pending());
    core::mem::forget(t);
}
proof! { fn c05_repoll_during_sleep() { bounds(4, 2, 2, 1); setup(); during_wait(late_poll_hook); react(None).ok(); } }
/// A due timer never makes the reactor sleep, whatever else is pending; and errors of the poller do not
/// cost a due timer its wake-up.
proof! { fn c05_due_despite_error() {
    bounds(1, 1, 1, 1); setup();
    let d = any_instant();
    let t0 = add(d, 0);
    advance();
    fault(Site::PollWait, kani::any());
    let t = any_timeout();
    let r = react(t);
    assert!(wakes(0) == b(due(Some(d))), "due timers are woken even if polling fails");
    let _ = r;
    core::mem::forget(t0);
} }
