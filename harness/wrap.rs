//! Contract of the thin wrappers around the std socket types (C16).
use crate::vh_common::*;
use std::net::SocketAddr;
use std::os::fd::AsRawFd;
use xstd::net::{addr_of, num_of, TcpListener, TcpStream, UdpSocket, UnixDatagram, UnixListener, UnixStream};
use xworld::{Op, OpRec};

fn end<T>(x: T) { core::mem::forget(x); }
fn start() { bounds(1, 1, 1, 3); setup(); on_suspend(turn); let mut i = 0; while i < xworld::NOPS { block(i); i += 1; } }
fn step(i: usize, v: i64, err: bool) { w().script[i] = v; w().script_err[i] = err; }
fn block(i: usize) { step(i, 11, true) }
fn any_n() -> usize { let v: u16 = kani::any(); v as usize }
const FD: i32 = xworld::FD0;
static mut READS: bool = false;
fn turn(n: usize) {
    let rd = unsafe { READS };
    assert!(w().nops == n + 1, "suspended only after an attempt that would block");
    assert!(armed(FD) == (rd, !rd), "waiting for the right direction");
    deliver(FD, rd, !rd).ok();
    assert!(wakes(n) == 1);
    w().task = n + 1;
}
fn is_op(i: usize, op: Op, fd: i32, a: usize, b: usize, c: usize) -> bool { let o: OpRec = w().ops[i]; o.op == op && o.fd == fd && o.a == a && o.b == b && o.c == c }
fn code<T>(r: io::Result<T>) -> i32 { match r { Ok(t) => { core::mem::forget(t); 0 } Err(e) => e.raw_os_error().unwrap_or(-1) } }

// ---- data transfer -------------------------------------------------------------------------------------
fn one<T>(a: &Async<T>, k: usize, v: usize, _rd: bool, op: Op, arg: usize, f: impl FnOnce(&Async<T>, &mut [u8]) -> io::Result<usize>) {
    let mut buf = [0u8; 3];
    let p = buf.as_ptr() as usize;
    let r = f(a, &mut buf);
    assert!(matches!(r, Ok(n) if n == v), "the result is returned unchanged");
    assert!(w().nops == k + 1 && w().suspends == k);
    let mut i = 0;
    while i < 2 { if i <= k { assert!(is_op(i, op, FD, p, 3, arg), "the same operation with the same arguments"); } i += 1; }
}
macro_rules! xfer { ($($n:ident $t:ty, $rd:literal, $op:expr, |$a:ident, $buf:ident| $call:expr, |$r:ident| $num:expr, $arg:expr;)*) => { $( pub(crate) mod $n { use super::*;
    fn run(k: usize) {
        start();
        unsafe { READS = $rd; }
        let $a = Async::<$t>::new(<$t>::fresh()).unwrap();
        let v = any_n();
        step(k, v as i64, false);
        one::<$t>(&$a, k, v, $rd, $op, $arg, |$a, $buf| $call.vawait().map(|$r| $num));
        end($a);
    }
    proof! { fn c16_at_once() { run(0) } }
    proof! { fn c16_blocks() { run(1) } }
    proof! { fn c16_fails() {
        start();
        unsafe { READS = $rd; }
        let $a = Async::<$t>::new(<$t>::fresh()).unwrap();
        step(1, 104, true);
        let mut b = [0u8; 3];
        let $buf = &mut b[..];
        assert!(code($call.vawait()) == 104, "the error is returned unchanged");
        assert!(w().nops == 2 && w().suspends == 1);
        end($a);
    } }
} )* } }
fn both_n(n: usize, a: &SocketAddr) -> usize { assert!(num_of(a) == n, "the peer's address is returned unchanged"); n }
xfer! {
    tcp_peek TcpStream, true, Op::Peek, |a, buf| a.peek(buf), |n| n, 0;
    udp_peek UdpSocket, true, Op::Peek, |a, buf| a.peek(buf), |n| n, 0;
    udp_recv UdpSocket, true, Op::Recv, |a, buf| a.recv(buf), |n| n, 0;
    udp_send UdpSocket, false, Op::Send, |a, buf| a.send(buf), |n| n, 0;
    udp_recv_from UdpSocket, true, Op::RecvFrom, |a, buf| a.recv_from(buf), |r| both_n(r.0, &r.1), 0;
    udp_peek_from UdpSocket, true, Op::PeekFrom, |a, buf| a.peek_from(buf), |r| both_n(r.0, &r.1), 0;
    udp_send_to UdpSocket, false, Op::SendTo, |a, buf| a.send_to(buf, addr_of(77)), |n| n, 77;
    dgram_recv UnixDatagram, true, Op::Recv, |a, buf| a.recv(buf), |n| n, 0;
    dgram_send UnixDatagram, false, Op::Send, |a, buf| a.send(buf), |n| n, 0;
    dgram_recv_from UnixDatagram, true, Op::RecvFrom, |a, buf| a.recv_from(buf), |r| { assert!(r.0 == r.1.n); r.0 }, 0;
    dgram_send_to UnixDatagram, false, Op::SendTo, |a, buf| a.send_to(buf, PATH), |n| n, PATH.as_ptr() as usize;
}
static PATH: &str = "sock";

// ---- accept -------------------------------------------------------------------------------------------
macro_rules! accept { ($m:ident $l:ty, |$r:ident| $num:expr) => { pub(crate) mod $m { use super::*;
    fn run(k: usize) {
        start();
        unsafe { READS = true; }
        let l = Async::<$l>::new(<$l>::fresh()).unwrap();
        let v = any_n();
        step(k, v as i64, false);
        let Ok((s, $r)) = l.accept().vawait() else { panic!("a connection was accepted") };
        assert!(w().nops == k + 1 && w().suspends == k && is_op(k, Op::Accept, FD, 0, 0, 0));
        assert!($num == v, "the peer's address is returned unchanged");
        let fd = s.as_raw_fd();
        assert!(fd != FD && xworld::fd_mut(fd).nonblock && xworld::poll_find(fd).is_some() && armed(fd) == (false, false), "the new stream is non-blocking and registered");
        end(s); end(l);
    }
    proof! { fn c16_at_once() { run(0) } }
    proof! { fn c16_blocks() { run(1) } }
    proof! { fn c16_fails() {
        start();
        unsafe { READS = true; }
        let l = Async::<$l>::new(<$l>::fresh()).unwrap();
        step(1, 24, true);
        assert!(code(l.accept().vawait()) == 24, "the error is returned unchanged");
        assert!(xworld::poll_count() == 1 && xworld::fd_open_count() == 1);
        end(l);
    } }
    /// If the new stream cannot be made asynchronous the error is reported and the stream closed.
    proof! { fn c16_stream_fails() {
        start();
        unsafe { READS = true; }
        let l = Async::<$l>::new(<$l>::fresh()).unwrap();
        step(0, 3, false);
        let c: i32 = kani::any();
        if kani::any() { fault(Site::Nonblock, c); } else { fault(Site::PollAdd, c); }
        assert!(code(l.accept().vawait()) == c, "the error is returned unchanged");
        assert!(xworld::poll_count() == 1 && xworld::fd_open_count() == 1, "nothing is left behind");
        end(l);
    } }
    /// `incoming` yields the result of every accept, and never ends.
    proof! { fn c16_incoming() {
        start();
        unsafe { READS = true; }
        let l = Async::<$l>::new(<$l>::fresh()).unwrap();
        step(0, 3, false); step(1, 103, true); step(2, 4, false);
        {
            let inc = l.incoming();
            futures_lite::pin!(inc);
            let wk = waker(0);
            let cx = &mut Context::from_waker(&wk);
            let Poll::Ready(Some(Ok(a))) = inc.as_mut().poll_next(cx) else { panic!("a connection was accepted") };
            assert!(xworld::fd_mut(a.as_raw_fd()).nonblock);
            let Poll::Ready(Some(r)) = inc.as_mut().poll_next(cx) else { panic!("an error does not end the stream") };
            assert!(code(r) == 103, "the error is returned unchanged");
            let Poll::Ready(Some(Ok(b))) = inc.as_mut().poll_next(cx) else { panic!("the stream goes on after an error") };
            assert!(a.as_raw_fd() != b.as_raw_fd() && w().nops == 3);
            end(a); end(b);
        }
        end(l);
    } }
} } }
accept! { tcp_accept TcpListener, |r| num_of(&r) }
accept! { unix_accept UnixListener, |r| r.n }

// ---- construction -------------------------------------------------------------------------------------
macro_rules! bind { ($m:ident $t:ty, $arg:expr, $a:expr, $b:expr) => { pub(crate) mod $m { use super::*;
    proof! { fn c16_bind() {
        start();
        step(0, 0, false);
        let s = Async::<$t>::bind($arg).unwrap();
        assert!(w().nops == 1 && is_op(0, Op::Bind, -1, if $b == 0 { $a } else { w().ops[0].a }, $b, 0), "bound once, to the address given");
        let fd = s.as_raw_fd();
        assert!(xworld::fd_mut(fd).nonblock && xworld::poll_count() == 1);
        end(s);
    } }
    proof! { fn c16_bind_fails() {
        start();
        step(0, 98, true);
        assert!(code(Async::<$t>::bind($arg)) == 98, "the error is returned unchanged");
        assert!(xworld::poll_count() == 0 && xworld::fd_open_count() == 0);
    } }
    proof! { fn c16_register_fails() {
        start();
        step(0, 0, false);
        let c: i32 = kani::any();
        if kani::any() { fault(Site::Nonblock, c); } else { fault(Site::PollAdd, c); }
        assert!(code(Async::<$t>::bind($arg)) == c, "the error is returned unchanged");
        assert!(xworld::poll_count() == 0 && xworld::fd_open_count() == 0);
    } }
} } }
bind! { tcp_bind TcpListener, addr_of(80), 80, 0 }
bind! { udp_bind UdpSocket, addr_of(81), 81, 0 }
bind! { unix_bind UnixListener, PATH, 0, 4 }
bind! { dgram_bind UnixDatagram, PATH, 0, 4 }
proof! { fn c16_unbound() {
    start();
    step(0, 0, false);
    let s = Async::<UnixDatagram>::unbound().unwrap();
    assert!(xworld::fd_mut(s.as_raw_fd()).nonblock && xworld::poll_count() == 1);
    end(s);
} }
macro_rules! pair { ($m:ident $t:ty) => { pub(crate) mod $m { use super::*;
    proof! { fn c16_pair() {
        start();
        step(0, 0, false);
        let (a, b) = Async::<$t>::pair().unwrap();
        assert!(a.as_raw_fd() != b.as_raw_fd() && xworld::poll_count() == 2);
        assert!(xworld::fd_mut(a.as_raw_fd()).nonblock && xworld::fd_mut(b.as_raw_fd()).nonblock);
        end((a, b));
    } }
    proof! { fn c16_pair_fails() {
        start();
        step(0, 24, true);
        assert!(code(Async::<$t>::pair()) == 24, "the error is returned unchanged");
        assert!(xworld::poll_count() == 0 && xworld::fd_open_count() == 0);
    } }
    fn register_fails(site: Site) {
        start();
        step(0, 0, false);
        let c: i32 = 24;
        fault(site, c);
        assert!(code(Async::<$t>::pair()) == c, "the error is returned unchanged");
        assert!(xworld::poll_count() == 0 && xworld::fd_open_count() == 0, "nothing is left behind");
    }
    proof! { fn c16_pair_register_fails() { register_fails(Site::PollAdd); } }
    proof! { fn c16_pair_nonblock_fails() { register_fails(Site::Nonblock); } }
} } }
pair! { unix_pair UnixStream }
pair! { dgram_pair UnixDatagram }
