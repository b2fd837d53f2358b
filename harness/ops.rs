//! Contract of the operations on `Async`: retried exactly on `WouldBlock`, in the right direction, and
//! the result handed back as it is (C11).
use crate::vh_common::*;
use futures_io::{AsyncRead, AsyncWrite};
use xstd::net::{TcpStream, UnixStream};
use xworld::{Op, OpRec};
use std::os::fd::AsRawFd;

fn end<T>(x: T) { core::mem::forget(x); }
const WB: i64 = 11;
fn any_ok() -> i64 { let v: i64 = kani::any(); kani::assume(v >= 0); v }
/// The operation's results: the first `n` are anything the OS can return, then it would block.
fn script(n: usize) {
    let mut i = 0;
    while i < xworld::NOPS {
        if i < n { let v: i64 = kani::any(); let e: bool = kani::any(); kani::assume(v >= 0 && (!e || (v > 0 && v < 4096))); w().script[i] = v; w().script_err[i] = e; }
        else { w().script[i] = WB; w().script_err[i] = true; }
        i += 1;
    }
}
fn step(i: usize, v: i64, err: bool) { w().script[i] = v; w().script_err[i] = err; }
fn blocks(i: usize) -> bool { w().script_err[i] && w().script[i] == WB }
#[derive(Clone, Copy)]
struct Call { op: Op, fd: i32, a: usize, b: usize, read: bool }
/// The contract of one poll.
fn judge(c: Call, r: Poll<io::Result<usize>>) -> bool { judge_with(c, r, true) }
fn judge_with(c: Call, r: Poll<io::Result<usize>>, value: bool) -> bool {
    let n = w().nops;
    assert!(n >= 1, "the operation is attempted");
    let mut i = 0;
    while i < xworld::NOPS {
        if i < n {
            let o: OpRec = w().ops[i];
            assert!(o.op == c.op && o.fd == c.fd && o.a == c.a && o.b == c.b, "the operation is attempted on the inner object with the caller's arguments");
            if i + 1 < n { assert!(blocks(i), "no retry after a result other than WouldBlock"); }
        }
        i += 1;
    }
    let (last, err, wb) = (w().script[n - 1], w().script_err[n - 1], blocks(n - 1));
    match r {
        Poll::Ready(Ok(v)) => { assert!(!err && (!value || v == last as usize), "the result of the operation is returned unchanged"); true }
        Poll::Ready(Err(e)) => {
            assert!(err && !wb && e.raw_os_error() == Some(last as i32), "the error of the operation is returned unchanged, and WouldBlock never");
            true
        }
        Poll::Pending => {
            assert!(wb, "pending only if the operation would block");
            assert!(armed(c.fd).0 == c.read && armed(c.fd).1 == !c.read, "waiting for the right direction");
            false
        }
    }
}
/// Drives an operation: it blocks, some event arrives, and it is polled again.
fn drive(c: Call, mut poll: impl FnMut(&mut Context<'_>) -> Poll<io::Result<usize>>, value: bool) {
    let (w0, w1) = (waker(0), waker(1));
    if judge_with(c, poll(&mut Context::from_waker(&w0)), value) { assert!(w().modify_calls == 0, "no interest is registered when nothing waits"); return; }
    let (r, wr): (bool, bool) = (kani::any(), kani::any());
    deliver(c.fd, r, wr).ok();
    let mine = if c.read { r } else { wr };
    assert!(wakes(0) == b(mine), "woken by the direction waited for, and by nothing else");
    let n = w().nops;
    let done = judge_with(c, poll(&mut Context::from_waker(&w1)), value);
    assert!(w().nops > n, "a woken operation is attempted again");
    if !done {
        deliver(c.fd, c.read, !c.read).ok();
        assert!(wakes(1) == 1, "the task that polled last is woken");
    }
}
fn start() { bounds(1, 1, 1, 1); setup(); }
fn tcp() -> (Async<TcpStream>, i32) { let s = TcpStream::fresh(); let fd = s.as_raw_fd(); (Async::new(s).unwrap(), fd) }

// ---- the poll-based traits, on the object and on a reference to it ------------------------------------
macro_rules! rd { ($n:ident $m:ident, $t:ident) => {
    proof! { fn $n() {
        start();
        let (mut a, fd) = tcp();
        script(2);
        let mut buf = [0u8; 3];
        let c = Call { op: Op::Read, fd, a: buf.as_ptr() as usize, b: 3, read: true };
        drive(c, |cx| $t!(AsyncRead::$m, a, cx, &mut buf), true);
        end(a);
    } }
} }
macro_rules! own { ($f:path, $a:ident, $($x:expr),*) => { $f(Pin::new(&mut $a), $($x),*) } }
macro_rules! byref { ($f:path, $a:ident, $($x:expr),*) => { { let mut r = &$a; $f(Pin::new(&mut r), $($x),*) } } }
rd!(c11_poll_read poll_read, own);
rd!(c11_poll_read_ref poll_read, byref);
macro_rules! rdv { ($n:ident $t:ident) => { proof! { fn $n() {
    start();
    let (mut a, fd) = tcp();
    script(2);
    let (mut x, mut y) = ([0u8; 2], [0u8; 2]);
    let mut bufs = [io::IoSliceMut::new(&mut x), io::IoSliceMut::new(&mut y)];
    let c = Call { op: Op::ReadV, fd, a: bufs.as_ptr() as usize, b: 2, read: true };
    drive(c, |cx| $t!(AsyncRead::poll_read_vectored, a, cx, &mut bufs), true);
    end(a);
} } } }
rdv!(c11_poll_read_vectored own);
rdv!(c11_poll_read_vectored_ref byref);
macro_rules! wr { ($n:ident $t:ident) => { proof! { fn $n() {
    start();
    let (mut a, fd) = tcp();
    script(2);
    let buf = [0u8; 3];
    let c = Call { op: Op::Write, fd, a: buf.as_ptr() as usize, b: 3, read: false };
    drive(c, |cx| $t!(AsyncWrite::poll_write, a, cx, &buf), true);
    end(a);
} } } }
wr!(c11_poll_write own);
wr!(c11_poll_write_ref byref);
macro_rules! wrv { ($n:ident $t:ident) => { proof! { fn $n() {
    start();
    let (mut a, fd) = tcp();
    script(2);
    let (x, y) = ([0u8; 2], [0u8; 2]);
    let bufs = [io::IoSlice::new(&x), io::IoSlice::new(&y)];
    let c = Call { op: Op::WriteV, fd, a: bufs.as_ptr() as usize, b: 2, read: false };
    drive(c, |cx| $t!(AsyncWrite::poll_write_vectored, a, cx, &bufs), true);
    end(a);
} } } }
wrv!(c11_poll_write_vectored own);
wrv!(c11_poll_write_vectored_ref byref);
fn unit(r: Poll<io::Result<()>>) -> Poll<io::Result<usize>> { match r { Poll::Pending => Poll::Pending, Poll::Ready(Ok(())) => Poll::Ready(Ok(0)), Poll::Ready(Err(e)) => Poll::Ready(Err(e)) } }
macro_rules! fl { ($n:ident $m:ident $t:ident) => { proof! { fn $n() {
    start();
    let (mut a, fd) = tcp();
    script(2);
    drive(Call { op: Op::Flush, fd, a: 0, b: 0, read: false }, |cx| unit($t!(AsyncWrite::$m, a, cx)), false);
    end(a);
} } } }
macro_rules! own { ($f:path, $a:ident, $($x:expr),*) => { $f(Pin::new(&mut $a), $($x),*) } }
fl!(c11_poll_flush poll_flush own);
fl!(c11_poll_flush_ref poll_flush byref);
fl!(c11_poll_close poll_close own);
fl!(c11_poll_close_ref poll_close byref);

// ---- the closure-based operations ---------------------------------------------------------------------
fn attempt(s: &Sock, id: usize) -> io::Result<usize> { match xworld::io_op(Op::Other, s.raw(), id, s as *const Sock as usize, 0) { Ok(n) => Ok(n), Err(c) => Err(io::Error::from_raw_os_error(c)) } }
fn sock() -> (Async<Sock>, i32) { let s = Sock::new(); let fd = s.raw(); (Async::new(s).unwrap(), fd) }
static mut CALL: Call = Call { op: Op::None, fd: -1, a: 0, b: 0, read: false };
fn call() -> Call { unsafe { CALL } }
/// The task is suspended: it waits in the right direction, and only an event in that direction wakes it.
fn turn(n: usize) {
    let c = call();
    assert!(!judge(c, Poll::Pending));
    assert!(w().nops == n + 1, "suspended only after an attempt that would block");
    deliver(c.fd, !c.read, c.read).ok();
    assert!(wakes(n) == 0, "the other direction is of no interest");
    deliver(c.fd, c.read, !c.read).ok();
    assert!(wakes(n) == 1, "woken by the direction waited for");
    // It may be another task that polls from now on.
    w().task = n + 1;
}
/// ... or it is polled without having been woken.
fn spurious(n: usize) {
    assert!(!judge(call(), Poll::Pending));
    if n == 1 {
        deliver(call().fd, call().read, !call().read).ok();
        assert!(wakes(0) == 0 && wakes(1) == 1, "the task that polled last is woken");
    }
    w().task = n + 1;
}
macro_rules! with { ($n:ident $m:ident $read:literal [$($mu:tt)*] $k:literal $turn:ident) => { proof! { fn $n() {
    start();
    on_suspend($turn);
    #[allow(unused_mut)]
    let (mut a, fd) = sock();
    unsafe { CALL = Call { op: Op::Other, fd, a: 7, b: a.get_ref() as *const Sock as usize, read: $read }; }
    script(0);
    match $k { 0 => step(0, any_ok(), false), 1 => step(0, 4, true), 2 => step(1, any_ok(), false), 3 => step(1, 104, true), _ => step(2, any_ok(), false) }
    #[allow(unused_unsafe)]
    let r = unsafe { a.$m(|s: &$($mu)* Sock| attempt(s, 7)).vawait() };
    assert!(judge(call(), Poll::Ready(r)));
    assert!(w().nops == 1 + $k / 2 && w().suspends == $k / 2);
    if $k < 2 { assert!(w().modify_calls == 0, "no interest is registered when nothing waits"); }
    end(a);
} } } }
macro_rules! withs { ($m:ident $read:literal $mu:tt $n0:ident $n1:ident $n2:ident $n3:ident $n4:ident $n5:ident) => {
    with!($n0 $m $read $mu 0 turn); with!($n1 $m $read $mu 1 turn); with!($n2 $m $read $mu 2 turn); with!($n3 $m $read $mu 3 turn); with!($n4 $m $read $mu 4 turn); with!($n5 $m $read $mu 4 spurious);
} }
withs!(read_with true [] c11_read_with_ok c11_read_with_err c11_read_with_block_ok c11_read_with_block_err c11_read_with_block_block c11_read_with_spurious);
withs!(write_with false [] c11_write_with_ok c11_write_with_err c11_write_with_block_ok c11_write_with_block_err c11_write_with_block_block c11_write_with_spurious);
withs!(read_with_mut true [mut] c11_read_with_mut_ok c11_read_with_mut_err c11_read_with_mut_block_ok c11_read_with_mut_block_err c11_read_with_mut_block_block c11_read_with_mut_spurious);
withs!(write_with_mut false [mut] c11_write_with_mut_ok c11_write_with_mut_err c11_write_with_mut_block_ok c11_write_with_mut_block_err c11_write_with_mut_block_block c11_write_with_mut_spurious);
/// If interest cannot be registered, the operation fails with that error instead of waiting.
macro_rules! arm_fails { ($n:ident $m:ident $read:literal [$($mu:tt)*]) => { proof! { fn $n() {
    start();
    #[allow(unused_mut)]
    let (mut a, fd) = sock();
    script(0);
    let c: i32 = kani::any();
    fault(Site::PollModify, c);
    #[allow(unused_unsafe)]
    let r = unsafe { a.$m(|s: &$($mu)* Sock| attempt(s, 7)).vawait() };
    assert!(err_is(Poll::Ready(r), c), "the error is reported");
    assert!(w().nops == 1 && w().suspends == 0);
    let p = if $read { poll_r(&a, 0) } else { poll_w(&a, 0) };
    assert!(p.is_pending() && armed(fd) == ($read, !$read));
    end(a);
} } } }
arm_fails!(c11_arm_fails_read_with read_with true []);
arm_fails!(c11_arm_fails_write_with write_with false []);
arm_fails!(c11_arm_fails_read_with_mut read_with_mut true [mut]);
arm_fails!(c11_arm_fails_write_with_mut write_with_mut false [mut]);
fn err_is(r: Poll<io::Result<usize>>, c: i32) -> bool { match r { Poll::Ready(Err(e)) => e.raw_os_error() == Some(c), _ => false } }
proof! { fn c11_arm_fails_poll() {
    start();
    let (a, fd) = tcp();
    script(0);
    let c: i32 = kani::any();
    fault(Site::PollModify, c);
    let wk = waker(0);
    let mut cx = Context::from_waker(&wk);
    let mut r = &a;
    let rd: bool = kani::any();
    if rd { assert!(err_is(AsyncRead::poll_read(Pin::new(&mut r), &mut cx, &mut [0u8; 1]), c)); }
    else { assert!(err_is(AsyncWrite::poll_write(Pin::new(&mut r), &mut cx, &[0u8; 1]), c)); }
    assert!(AsyncRead::poll_read(Pin::new(&mut r), &mut cx, &mut [0u8; 1]).is_pending() && armed(fd) == (true, false));
    end(a);
} }
/// Reading and writing at once on one object do not disturb each other.
proof! { fn c11_both_directions() {
    start();
    let (a, fd) = tcp();
    script(0);
    let (w0, w1) = (waker(0), waker(1));
    let mut r = &a;
    assert!(AsyncRead::poll_read(Pin::new(&mut r), &mut Context::from_waker(&w0), &mut [0u8; 1]).is_pending());
    assert!(AsyncWrite::poll_write(Pin::new(&mut r), &mut Context::from_waker(&w1), &[0u8; 1]).is_pending());
    assert!(armed(fd) == (true, true));
    let (rd, wr): (bool, bool) = (kani::any(), kani::any());
    deliver(fd, rd, wr).ok();
    assert!(wakes(0) == b(rd) && wakes(1) == b(wr));
    assert!(armed(fd) == (!rd && true, !wr && true) || (rd && wr));
    end(a);
} }
