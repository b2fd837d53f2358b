//! C15: the helper thread.
#![allow(dead_code, unused_imports, static_mut_refs)]
use crate::vh_common::*;
use std::future::poll_fn;

/// What the helper thread has been seen doing; `free` etc. describe its environment in this round.
struct St { sleeps: u32, waits: u32, last_delay: u64, total: u64, rounds: u32, active: bool, held: Option<crate::reactor::ReactorLock<'static>>, blocked: u32, tick: usize, waits_at: u32, free: bool, known: bool }
static mut S: St = St { sleeps: 0, waits: 0, last_delay: 0, total: 0, rounds: 0, active: false, held: None, blocked: 0, tick: 0, waits_at: 0, free: false, known: false };
fn s() -> &'static mut St { unsafe { &mut *(&raw mut S) } }
fn start() { w().keep_spawned = true; setup(); bounds(1, 1, 1, 1); }
fn go() { w().tid = 1; xstd::thread::run_spawned(); assert!(false, "the helper thread has ended"); }
fn end() { kani::cover!(); kani::assume(false); }
/// Runs the helper thread while a `block_on` is active elsewhere.
fn go_active() { s().active = true; block_on(poll_fn(|_| -> Poll<()> { go(); Poll::Pending })); }
fn take() { s().held = Some(Reactor::get().lock()); }
fn is_held() -> bool { s().held.is_some() }

fn never_sleeps(_: usize, _: Duration) { assert!(false, "the helper thread sleeps although nobody else would drive the reactor"); }
fn wait3(_: &mut polling::Events, t: Option<Duration>) {
    s().waits += 1;
    assert!(t.is_none(), "the helper thread spins");
    if s().waits == 3 { end(); }
}
/// With no block_on running, the helper drives the reactor round after round, waiting without a limit.
proof! { fn c15_drives_alone() unwind 6 { start(); unsafe { xworld::ON_PARK_TIMEOUT = Some(never_sleeps); polling::ON_WAIT = Some(wait3); } go(); } }
/// ... also after failures of the poller.
fn wait_fail(_: &mut polling::Events, _: Option<Duration>) { s().waits += 1; if s().waits == 3 { end(); } fault(Site::PollWait, if s().waits == 1 { 4 } else { 9 }); }
proof! { fn c15_survives_poller_failures() unwind 6 { start(); unsafe { xworld::ON_PARK_TIMEOUT = Some(never_sleeps); polling::ON_WAIT = Some(wait_fail); } go(); } }
/// ... and timers fire although nobody calls block_on.
fn wait_timer(_: &mut polling::Events, t: Option<Duration>) {
    s().waits += 1;
    if s().waits == 3 { assert!(false, "a due timer has not been woken by the helper thread"); }
    if let Some(d) = t { set_now(now().checked_add(d).unwrap()); }
    if wakes(0) > 0 { end(); }
}
proof! { fn c15_fires_timers() unwind 6 {
    start(); bounds(2, 2, 2, 1);
    unsafe { xworld::ON_PARK_TIMEOUT = Some(never_sleeps); polling::ON_WAIT = Some(wait_timer); }
    let mut t = Timer::after(Duration::new(5, 0));
    assert!(poll_timer(&mut t, 0).is_pending());
    go();
} }

/// The number of backoff steps the helper may take before it insists on the reactor, and the longest of them.
const PATIENCE: u32 = 64;
const LONGEST: Duration = Duration::from_millis(10);
fn nap(_: usize, d: Duration) {
    assert!(s().active, "the helper thread sleeps although no block_on is running");
    assert!(d <= LONGEST, "the helper thread sleeps for longer than 10 ms");
    s().sleeps += 1;
}
/// block_on threads hold the reactor and nothing moves: the helper ends up queueing for the reactor.
fn blocked() { s().blocked += 1; let _ = s().held.take(); }
fn wait_end(_: &mut polling::Events, _: Option<Duration>) { assert!(s().blocked > 0); end(); }
fn nap_stuck(id: usize, d: Duration) { nap(id, d); assert!(s().sleeps < 32, "the helper thread never insists on the reactor"); }
proof! { fn c15_insists_on_a_stuck_reactor() unwind 34 {
    start();
    unsafe { xworld::ON_PARK_TIMEOUT = Some(nap_stuck); polling::ON_WAIT = Some(wait_end); xstd::sync::ON_BLOCKED_LOCK = Some(blocked); }
    take();
    go_active();
} }
/// Nobody drives the reactor and it is free: the helper takes it in its first round, and again in every
/// round in which the reactor has not moved since.
fn nap_free(id: usize, d: Duration) {
    nap(id, d);
    assert!(s().waits == s().sleeps, "the helper thread leaves an idle reactor alone");
    if s().sleeps == 3 { end(); }
}
fn wait_count(_: &mut polling::Events, _: Option<Duration>) { s().waits += 1; }
proof! { fn c15_takes_an_idle_reactor() unwind 6 {
    start();
    unsafe { xworld::ON_PARK_TIMEOUT = Some(nap_free); polling::ON_WAIT = Some(wait_count); }
    go_active();
} }
/// Mixtures of: the reactor was driven by others or not, is held or free, the helper was unparked or not.
static mut PLAN: [(bool, bool); 2] = [(false, false); 2];
fn nap_plan(id: usize, d: Duration) {
    nap(id, d);
    // What the helper saw at the beginning of this round, if the last one ended in a nap.
    if s().known && s().free { assert!(s().waits > s().waits_at, "the helper thread leaves an idle reactor alone"); }
    if s().sleeps == 3 { end(); }
    let (drive, hold) = unsafe { PLAN[s().sleeps as usize - 1] };
    s().held = None;
    if drive { unsafe { polling::ON_WAIT = None; } react(Some(Duration::ZERO)).ok(); unsafe { polling::ON_WAIT = Some(wait_count); } }
    if hold { take(); }
    let notified: bool = kani::any();
    w().token[id] = notified;
    s().free = !hold;
    s().waits_at = s().waits;
    // A reactor that has moved is in somebody's hands, unless the helper has been told to look.
    s().known = !drive || notified;
}
fn history(p: [(bool, bool); 2]) {
    start();
    unsafe { PLAN = p; xworld::ON_PARK_TIMEOUT = Some(nap_plan); polling::ON_WAIT = Some(wait_count); }
    go_active();
}
macro_rules! histories { ($($n:ident $a:literal $b:literal $c:literal $d:literal;)*) => { $( proof! { fn $n() unwind 6 { history([($a, $b), ($c, $d)]); } } )* } }
histories! {
    c15_history_still_free_still_free false false false false;
    c15_history_driven_free_still_free true false false false;
    c15_history_still_held_still_free false true false false;
    c15_history_driven_held_still_free true true false false;
    c15_history_still_free_driven_free false false true false;
    c15_history_driven_free_driven_free true false true false;
    c15_history_still_held_driven_free false true true false;
    c15_history_driven_held_driven_free true true true false;
    c15_history_still_free_still_held false false false true;
    c15_history_driven_free_still_held true false false true;
    c15_history_still_held_still_held false true false true;
    c15_history_driven_held_still_held true true false true;
    c15_history_still_free_driven_held false false true true;
    c15_history_driven_free_driven_held true false true true;
    c15_history_still_held_driven_held false true true true;
    c15_history_driven_held_driven_held true true true true;
}
/// Others keep driving the reactor all the time: the helper keeps looking, at most 10 ms apart.
fn nap_busy(id: usize, d: Duration) {
    nap(id, d);
    if s().sleeps == 14 { end(); }
    unsafe { polling::ON_WAIT = None; } react(Some(Duration::ZERO)).ok(); unsafe { polling::ON_WAIT = Some(wait_count); }
}
proof! { fn c15_keeps_looking() unwind 16 {
    start();
    unsafe { xworld::ON_PARK_TIMEOUT = Some(nap_busy); polling::ON_WAIT = Some(wait_count); }
    go_active();
} }
/// block_on ends: from then on the helper does not sleep.
fn nap_none(_: usize, _: Duration) { assert!(false, "the helper thread sleeps although no block_on is running"); }
proof! { fn c15_resumes_after_block_on() unwind 6 {
    start();
    block_on(poll_fn(|_| Poll::Ready(1)));
    unsafe { xworld::ON_PARK_TIMEOUT = Some(nap_none); polling::ON_WAIT = Some(wait3); }
    go();
} }
