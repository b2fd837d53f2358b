//! Contracts of `Timer` against the reactor: whose task is woken, when and how often (C03).
//!
//! The observation: at an arbitrary later time the reactor makes one pass, and the wake-ups are counted.
use crate::vh_common::*;
use xworld::NW;

/// After an arbitrary delay, one pass of the reactor wakes exactly `who` (iff `when` has come), once.
fn only_woken(who: usize, when: Option<Instant>) {
    advance();
    react0();
    let mut i = 0;
    while i < 3 {
        if i == who { assert!(wakes(i) == b(due(when)), "the task last to poll is woken exactly when the timer is due"); }
        else { assert!(wakes(i) == 0, "only the task last to poll is woken"); }
        i += 1;
    }
    kani::cover!(due(when), "due"); kani::cover!(!due(when), "not due");
}
/// It is not woken again for the same deadline.
fn woken_once(who: usize, when: Option<Instant>) {
    advance();
    react0();
    advance();
    react0();
    assert!(wakes(who) == b(due(when)), "woken once per deadline");
}
fn none_woken() { advance(); react0(); let mut i = 0; while i < 3 { assert!(wakes(i) == 0, "no wake-up for a timer that is gone"); i += 1; } }
fn pending_timer() -> (Timer, Instant, Duration) {
    let (d, p) = (any_instant(), any_duration());
    kani::assume(d > now());
    let mut t = Timer::interval_at(d, p);
    assert!(poll_timer(&mut t, 0) == Poll::Pending);
    (t, d, p)
}
/// Deadline reached while registered; the reactor may or may not have seen it yet.
fn reactor_maybe() { if kani::any() { react0(); clear_wakes(); } }

proof! { fn c03_same_task() { bounds(2, 2, 2, 1); setup(); let (mut t, d, _) = pending_timer(); assert!(poll_timer(&mut t, 0) == Poll::Pending); only_woken(0, Some(d)); core::mem::forget(t); } }
proof! { fn c03_once() { bounds(1, 1, 1, 1); setup(); let (t, d, _) = pending_timer(); woken_once(0, Some(d)); core::mem::forget(t); } }
proof! { fn c03_once_after_reset() { bounds(3, 2, 2, 1); setup(); let (mut t, _, _) = pending_timer(); let d = any_instant(); t.set_at(d); woken_once(0, Some(d)); core::mem::forget(t); } }
proof! { fn c03_last_task() { bounds(4, 2, 2, 1); setup(); let (mut t, d, _) = pending_timer(); assert!(poll_timer(&mut t, 1) == Poll::Pending); only_woken(1, Some(d)); core::mem::forget(t); } }
proof! { fn c03_back_and_forth() { bounds(5, 2, 2, 1); setup(); let (mut t, d, _) = pending_timer(); assert!(poll_timer(&mut t, 1) == Poll::Pending); assert!(poll_timer(&mut t, 0) == Poll::Pending); only_woken(0, Some(d)); core::mem::forget(t); } }
proof! { fn c03_last_task_after_reactor() { bounds(4, 2, 2, 1); setup(); let (mut t, d, _) = pending_timer(); react0(); assert!(poll_timer(&mut t, 1) == Poll::Pending); only_woken(1, Some(d)); core::mem::forget(t); } }
proof! { fn c03_dropped() { bounds(4, 2, 2, 1); setup(); let (t, _, _) = pending_timer(); drop(t); none_woken(); } }
proof! { fn c03_dropped_after_reactor() { bounds(4, 2, 2, 1); setup(); let (t, _, _) = pending_timer(); react0(); drop(t); none_woken(); } }
proof! { fn c03_dropped_after_change_of_task() { bounds(4, 2, 2, 1); setup(); let (mut t, _, _) = pending_timer(); let _ = poll_timer(&mut t, 1); drop(t); none_woken(); } }
/// A fired timer leaves only the registration of its next deadline.
proof! { fn c03_fired() {
    bounds(4, 2, 2, 1); setup();
    let (mut t, d, p) = pending_timer();
    advance();
    kani::assume(d <= now());
    assert!(poll_timer(&mut t, 1) == Poll::Ready(Some(d)));
    only_woken(1, d.checked_add(p));
    core::mem::forget(t);
} }
proof! { fn c03_fired_after_wake() {
    bounds(4, 2, 2, 1); setup();
    let (mut t, d, p) = pending_timer();
    advance();
    kani::assume(d <= now());
    react0();
    assert!(wakes(0) == 1);
    clear_wakes();
    assert!(poll_timer(&mut t, 1) == Poll::Ready(Some(d)));
    only_woken(1, d.checked_add(p));
    core::mem::forget(t);
} }
proof! { fn c03_fired_then_dropped() {
    bounds(4, 2, 2, 1); setup();
    let (mut t, d, p) = pending_timer();
    advance();
    kani::assume(d <= now());
    assert!(poll_timer(&mut t, 1) == Poll::Ready(Some(d)));
    drop(t);
    none_woken();
    let _ = p;
} }
/// First poll already due: the next deadline is registered for the polling task.
proof! { fn c03_first_poll_due() {
    bounds(1, 2, 2, 1); setup();
    let (d, p) = (any_instant(), any_duration());
    kani::assume(d <= now());
    let mut t = Timer::interval_at(d, p);
    assert!(poll_timer(&mut t, 2) == Poll::Ready(Some(d)));
    only_woken(2, d.checked_add(p));
    core::mem::forget(t);
} }

fn set(t: &mut Timer, op: u8) -> Option<Instant> {
    let (i, d) = (any_instant(), any_duration());
    match op {
        0 => { t.set_at(i); Some(i) }
        1 => { t.set_after(d); now().checked_add(d) }
        2 => { t.set_interval(d); now().checked_add(d) }
        _ => { t.set_interval_at(i, d); Some(i) }
    }
}
macro_rules! per_setter { ($($n:ident $k:ident $h:ident $o:ident $f:ident = $op:expr),*) => { $(
    /// Rescheduling moves the registration: the old deadline wakes nobody, the new one the last task.
    proof! { fn $n() { bounds(4, 2, 2, 1); setup(); let (mut t, _, _) = pending_timer(); let e = set(&mut t, $op); only_woken(0, e); core::mem::forget(t); } }
    proof! { fn $k() { bounds(4, 2, 2, 1); setup(); let (t, _, _) = pending_timer(); let mut t = t; let _ = set(&mut t, $op); drop(t); none_woken(); } }
    /// A timer that had nothing scheduled when it was polled still belongs to that task.
    proof! { fn $h() { bounds(4, 2, 2, 1); setup(); let mut t = Timer::never(); assert!(poll_timer(&mut t, 0) == Poll::Pending); let e = set(&mut t, $op); only_woken(0, e); core::mem::forget(t); } }
    /// As does one whose only firing is over.
    proof! { fn $f() { bounds(5, 2, 2, 1); setup(); let d = any_instant(); kani::assume(d <= now()); let mut t = Timer::at(d); assert!(poll_timer(&mut t, 1) == Poll::Ready(Some(d))); assert!(poll_timer(&mut t, 0) == Poll::Pending); let e = set(&mut t, $op); only_woken(0, e); core::mem::forget(t); } }
    proof! { fn $o() { bounds(4, 2, 2, 1); setup(); let (mut t, d, _) = pending_timer(); advance(); kani::assume(d <= now()); react0(); clear_wakes(); let e = set(&mut t, $op); only_woken(0, e); core::mem::forget(t); } }
)* } }
per_setter! {
    c03_set_at c03_set_at_drop c03_set_at_idle c03_set_at_woken c03_set_at_done = 0,
    c03_set_after c03_set_after_drop c03_set_after_idle c03_set_after_woken c03_set_after_done = 1,
    c03_set_interval c03_set_interval_drop c03_set_interval_idle c03_set_interval_woken c03_set_interval_done = 2,
    c03_set_interval_at c03_set_interval_at_drop c03_set_interval_at_idle c03_set_interval_at_woken c03_set_interval_at_done = 3
}
/// Rescheduling, then polling from another task.
proof! { fn c03_set_then_other_task() {
    bounds(5, 2, 2, 1); setup();
    let (mut t, _, _) = pending_timer();
    let i = any_instant();
    t.set_at(i);
    kani::assume(i > now());
    assert!(poll_timer(&mut t, 1) == Poll::Pending);
    only_woken(1, Some(i));
    core::mem::forget(t);
} }
/// Rescheduling to never and back.
proof! { fn c03_never_and_back() {
    bounds(4, 2, 2, 1); setup();
    let (mut t, _, _) = pending_timer();
    t.set_after(Duration::MAX);
    assert!(!t.will_fire());
    let i = any_instant();
    t.set_at(i);
    only_woken(0, Some(i));
    core::mem::forget(t);
} }
