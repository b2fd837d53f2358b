//! Ghost state shared by every contract stand-in ("shim").
//!
//! Everything here is specification: none of it exists in the real system.
#![allow(static_mut_refs)]
#![feature(min_specialization)]

/// Where a value that lives for the rest of the program is kept: the heap, unless the generated crate
/// names a statically allocated place for its type (which is cheaper to reason about).
pub unsafe trait Place: Sized { fn place() -> *mut Self; }
unsafe impl<T> Place for T {
    default fn place() -> *mut T { Box::into_raw(Box::new(core::mem::MaybeUninit::<T>::uninit())) as *mut T }
}

/// Nondeterministic values (all values of the type) when verifying / replaying.
#[cfg(kani)]
pub fn any_bool() -> bool { kani::any() }
#[cfg(kani)]
pub fn any_u64() -> u64 { kani::any() }
#[cfg(kani)]
pub fn any_i64() -> i64 { kani::any() }
#[cfg(kani)]
pub fn any_u32() -> u32 { kani::any() }
#[cfg(kani)]
pub fn any_usize() -> usize { kani::any() }
#[cfg(kani)]
pub fn assume(b: bool) { kani::assume(b) }
#[cfg(not(kani))]
pub fn any_bool() -> bool { false }
#[cfg(not(kani))]
pub fn any_u64() -> u64 { 0 }
#[cfg(not(kani))]
pub fn any_i64() -> i64 { 0 }
#[cfg(not(kani))]
pub fn any_u32() -> u32 { 0 }
#[cfg(not(kani))]
pub fn any_usize() -> usize { 0 }
#[cfg(not(kani))]
pub fn assume(b: bool) { if !b { panic!("assumption violated in native run") } }

/// The stand-in's bound was reached: the path is not explored further. Reported, never an alarm.
#[cfg(kani)]
#[macro_export]
macro_rules! bound { ($c:expr, $m:literal) => { { let c: bool = $c; kani::cover!(!c, $m); kani::assume(c); } } }
#[cfg(not(kani))]
#[macro_export]
macro_rules! bound { ($c:expr, $m:literal) => { { if !$c { panic!($m); } } } }

/// Number of distinguishable harness wakers.
pub const NW: usize = 8;
/// Size of the poller's registration table.
pub const NP: usize = 4;
/// Number of ghost file descriptors.
pub const NFD: usize = 4;
/// Number of `parking` pairs.
pub const NPARK: usize = 6;

#[derive(Clone, Copy)]
pub struct PollEntry {
    pub used: bool,
    pub fd: i32,
    pub key: usize,
    /// Interest armed with the OS (one-shot).
    pub r: bool,
    pub w: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Addr {
    None,
    V4(std::net::SocketAddrV4),
    V6(std::net::SocketAddrV6),
    /// abstract?, length, first four bytes
    Unix(bool, usize, [u8; 4]),
}

#[derive(Clone, Copy)]
pub struct Fd {
    pub open: bool,
    pub ever: bool,
    pub nonblock: bool,
    pub cloexec: bool,
    pub family: u16,
    pub stype: u32,
    pub proto: u32,
    pub peer: Addr,
}
pub const NO_FD: Fd = Fd { open: false, ever: false, nonblock: false, cloexec: false, family: 0, stype: 0, proto: 0, peer: Addr::None };
pub const FD0: i32 = 10;

/// A place where the operating system may fail.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Site { Nonblock, Socket, Connect, PollAdd, PollModify, PollDelete, PollWait, Bind, SoError, TakeError }
pub const NSITE: usize = 10;

/// Operations a ghost socket can be asked for.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Op {
    None, Read, ReadV, Write, WriteV, Flush, Accept, Peek, RecvFrom, PeekFrom, SendTo, Recv, Send,
    Bind, Connect, Pair, TakeError, PeerAddr, LocalAddr, Other,
}
#[derive(Clone, Copy)]
pub struct OpRec { pub op: Op, pub fd: i32, pub a: usize, pub b: usize, pub c: usize }
pub const NO_OP: OpRec = OpRec { op: Op::None, fd: -1, a: 0, b: 0, c: 0 };
pub const NOPS: usize = 4;

pub struct World {
    // ---- file descriptors ---------------------------------------------
    pub fds: [Fd; NFD],
    pub nonblock_calls: u32,
    pub connect_calls: u32,
    /// Whether the next call at that site fails (consumed by the call), and with which error code.
    pub faults: [bool; NSITE],
    pub codes: [i32; NSITE],
    /// Log of operations on ghost sockets, and what they return: a number, or an error with that code.
    pub ops: [OpRec; NOPS],
    pub nops: usize,
    pub script: [i64; NOPS],
    pub script_err: [bool; NOPS],
    /// Task that polls the current `async fn`, and how often it has been suspended.
    pub task: usize,
    pub suspends: usize,
    /// Ghost identity of the current thread.
    pub tid: usize,
    pub errno: i32,
    /// `parking` pairs: token and number of `unpark` calls.
    pub parkers: usize,
    pub token: [bool; NPARK],
    pub unparks: [u8; NPARK],
    pub take_error_calls: u32,
    pub spawned: u32,
    /// Spawned closures are kept, to be run as ghost thread 1 by the harness.
    pub keep_spawned: bool,

    // ---- clock -------------------------------------------------------
    pub now_secs: i64,
    pub now_nanos: u32,
    /// Every `Instant::now()` may advance the clock by an arbitrary amount.
    pub clock_advances: bool,
    pub now_calls: u32,

    // ---- wakers ------------------------------------------------------
    pub wakes: [u8; NW],
    pub catch_depth: u32,
    /// Wake-ups performed where a panic of the waker would escape.
    pub uncontained: u32,

    // ---- poller ------------------------------------------------------
    pub poll: [PollEntry; NP],
    pub poll_new: u32,
    pub notify_pending: bool,
    pub notify_count: u32,
    /// Ghost step numbers of the last `notify` and the last change to shared queues.
    pub notify_seq: u32,
    pub push_seq: u32,
    pub seq: u32,
    pub modify_calls: u32,
    pub delete_calls: u32,
    /// Descriptor whose deregistration the OS refused: the program has done what it can.
    pub delete_failed: i32,
    pub waits: u32,
    pub last_timeout: Option<std::time::Duration>,
}

pub const NO_ENTRY: PollEntry = PollEntry { used: false, fd: -1, key: 0, r: false, w: false };

pub static mut WORLD: World = World {
    fds: [NO_FD; NFD],
    nonblock_calls: 0,
    connect_calls: 0,
    faults: [false; NSITE],
    codes: [0; NSITE],
    ops: [NO_OP; NOPS],
    nops: 0,
    script: [0; NOPS],
    script_err: [false; NOPS],
    task: 0,
    suspends: 0,
    tid: 0,
    errno: 0,
    parkers: 0,
    token: [false; NPARK],
    unparks: [0; NPARK],
    take_error_calls: 0,
    spawned: 0,
    keep_spawned: false,
    now_secs: 0,
    now_nanos: 0,
    clock_advances: false,
    now_calls: 0,
    wakes: [0; NW],
    catch_depth: 0,
    uncontained: 0,
    poll: [NO_ENTRY; NP],
    poll_new: 0,
    notify_pending: false,
    notify_count: 0,
    notify_seq: 0,
    push_seq: 0,
    seq: 0,
    modify_calls: 0,
    delete_calls: 0,
    delete_failed: -1,
    waits: 0,
    last_timeout: None,
};

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *core::ptr::addr_of_mut!(WORLD) }
}

/// Consumes the fault planned for `site`.
pub fn take_fault(site: Site) -> Option<i32> {
    let i = site as usize;
    if w().faults[i] { w().faults[i] = false; Some(w().codes[i]) } else { None }
}
/// The next call at `site` fails with error `code`.
pub fn fault(site: Site, code: i32) { assume(code > 0); w().faults[site as usize] = true; w().codes[site as usize] = code; }
pub fn no_fault(site: Site) { w().faults[site as usize] = false; }
fn slot(raw: i32) -> usize {
    assert!(raw >= FD0 && raw < FD0 + NFD as i32, "not a ghost file descriptor");
    (raw - FD0) as usize
}
/// The ghost descriptor `raw`; using a closed descriptor is an error.
pub fn fd_mut(raw: i32) -> &'static mut Fd {
    let f = &mut w().fds[slot(raw)];
    assert!(f.open, "use of a closed file descriptor");
    f
}
pub fn fd_is_open(raw: i32) -> bool { w().fds[slot(raw)].open }
/// Opens a fresh descriptor. Numbers are handed out lowest-free-first, like the OS does.
pub fn fd_open(nonblock: bool, cloexec: bool) -> i32 {
    let mut i = 0;
    while i < NFD {
        if !w().fds[i].open {
            w().fds[i] = Fd { open: true, ever: true, nonblock, cloexec, ..NO_FD };
            return FD0 + i as i32;
        }
        i += 1;
    }
    bound!(false, "BOUND fds");
    unreachable!()
}
pub fn fd_open_count() -> usize { let mut n = 0; let mut i = 0; while i < NFD { if w().fds[i].open { n += 1; } i += 1; } n }
pub fn poll_count() -> usize { let mut n = 0; let mut i = 0; while i < NP { if w().poll[i].used { n += 1; } i += 1; } n }
pub fn poll_find(fd: i32) -> Option<usize> { let mut i = 0; while i < NP { if w().poll[i].used && w().poll[i].fd == fd { return Some(i); } i += 1; } None }
pub fn fd_close(raw: i32) {
    let s = slot(raw);
    assert!(w().fds[s].open, "double close of a file descriptor");
    assert!(poll_find(raw).is_none() || w().delete_failed == raw, "descriptor closed while still registered with the poller");
    w().fds[s].open = false;
}
/// Performs a scripted operation on a ghost socket.
pub fn io_op(op: Op, fd: i32, a: usize, b: usize, c: usize) -> Result<usize, i32> {
    let w = w();
    let i = w.nops;
    bound!(i < NOPS, "BOUND ops");
    w.ops[i] = OpRec { op, fd, a, b, c };
    w.nops = i + 1;
    let r = w.script[i];
    if w.script_err[i] { Err(r as i32) } else { Ok(r as usize) }
}

/// The next ghost step number.
pub fn tick() -> u32 { let w = w(); w.seq += 1; w.seq }

/// Reads the monotonic clock.
pub fn clock_read() -> (i64, u32) {
    let w = w();
    if w.clock_advances {
        let (s, n) = (any_i64(), any_u32());
        assume(n < 1_000_000_000);
        assume(s < 1 << 40);
        assume(s > w.now_secs || (s == w.now_secs && n >= w.now_nanos));
        w.now_secs = s;
        w.now_nanos = n;
    }
    (w.now_secs, w.now_nanos)
}

// ---- harness wakers ---------------------------------------------------
use core::task::{RawWaker, RawWakerVTable, Waker};

unsafe fn wk_clone(p: *const ()) -> RawWaker { RawWaker::new(p, &VTABLE) }
unsafe fn wk_wake(p: *const ()) { woke(p as usize) }
unsafe fn wk_drop(_p: *const ()) {}
static VTABLE: RawWakerVTable = RawWakerVTable::new(wk_clone, wk_wake, wk_wake, wk_drop);

/// What a waker does besides being counted.
pub static mut ON_WAKE: Option<fn(usize)> = None;
fn woke(id: usize) {
    w().wakes[id] += 1;
    if w().catch_depth == 0 { w().uncontained += 1; }
    if let Some(f) = unsafe { ON_WAKE } { f(id); }
}

/// A waker whose wake-ups are counted in `wakes[id]`.
pub fn waker(id: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VTABLE)) }
}

/// What the environment does while an `async fn` is suspended. Without it, the task is never polled again.
pub static mut ON_SUSPEND: Option<fn(usize)> = None;
pub fn suspend() {
    let n = w().suspends;
    w().suspends = n + 1;
    match unsafe { ON_SUSPEND } { Some(f) => f(n), None => assume(false) }
}

/// Called before every access to shared memory another thread may also touch.
pub static mut ON_INTERFERE: Option<fn()> = None;
#[inline(always)]
pub fn interfere() { if let Some(f) = unsafe { ON_INTERFERE } { f() } }

/// Called when a thread parks (without a timeout) on pair `id`, before it takes the token.
/// Without it, a thread that parks without a token is never seen again.
pub static mut ON_PARK: Option<fn(usize)> = None;
pub fn on_park(id: usize) {
    match unsafe { ON_PARK } { Some(f) => f(id), None => {} }
    assume(w().token[id]);
}
/// Called when a thread parks with a timeout, before it looks at the token.
pub static mut ON_PARK_TIMEOUT: Option<fn(usize, std::time::Duration)> = None;
pub fn on_park_timeout(id: usize, d: std::time::Duration) { interfere(); if let Some(f) = unsafe { ON_PARK_TIMEOUT } { f(id, d) } }
/// Called after the token of pair `id` has been set.
pub static mut ON_UNPARK: Option<fn(usize)> = None;
