//! Contract of `connect` (C12).
use crate::vh_common::*;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use xstd::net::{TcpStream, UnixStream};
use xworld::Addr;
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;

fn end<T>(x: T) { core::mem::forget(x); }
fn start() { bounds(1, 1, 1, 1); setup(); unsafe { slab::STRICT = true; } on_suspend(turn); }
fn any_code() -> i32 { let c: i32 = kani::any(); kani::assume(c > 0); c }
fn any_v4() -> SocketAddr { SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(kani::any::<u32>()), kani::any())) }
fn any_v6() -> SocketAddr { SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(kani::any::<[u8; 16]>()), kani::any(), kani::any(), kani::any())) }
const FD: i32 = xworld::FD0;
/// What happens on the second suspension at the latest: the connection attempt is over.
static mut SO_ERROR: i32 = 0;
static mut PEER_ERROR: bool = false;
fn turn(n: usize) {
    assert!(w().connect_calls == 1, "suspended only once the attempt is under way");
    assert!(armed(FD) == (false, true), "waiting for writability");
    assert!(w().take_error_calls == 0 && w().nops == 0, "the outcome is examined only after the attempt is over");
    deliver(FD, true, false).ok();
    assert!(wakes(n) == 0, "readability says nothing about the connection");
    if n == 0 { w().task = 1; return; }
    if unsafe { SO_ERROR } != 0 { fault(Site::SoError, unsafe { SO_ERROR }); }
    if unsafe { PEER_ERROR } { w().script[0] = 107; w().script_err[0] = true; }
    deliver(FD, kani::any(), true).ok();
    assert!(wakes(1) == 1);
}
fn tcp_socket(addr: SocketAddr) {
    let f = w().fds[0];
    assert!(f.family == (if addr.is_ipv4() { 2 } else { 10 }) && f.stype == 1, "a stream socket of the address's family");
    assert!(f.proto == 6 || f.proto == 0, "TCP");
    assert!(f.nonblock && f.cloexec, "non-blocking and close-on-exec");
    let same = match (addr, f.peer) {
        (SocketAddr::V4(v), Addr::V4(p)) => v == p,
        (SocketAddr::V6(v), Addr::V6(p)) => u128::from(*v.ip()) == u128::from(*p.ip()) && v.port() == p.port() && v.flowinfo() == p.flowinfo() && v.scope_id() == p.scope_id(),
        _ => false,
    };
    assert!(same, "connecting to the address given");
    assert!(w().connect_calls == 1, "one attempt");
}
fn nothing_left() { assert!(xworld::fd_open_count() == 0, "the socket is closed"); assert!(xworld::poll_count() == 0); end(Async::new(Sock::new()).unwrap()); }
/// The outcomes: 0 connected at once, 1 in progress, 2 would block.
fn tcp_ok(addr: SocketAddr, how: u8) {
    start();
    match how { 0 => {} 1 => fault(Site::Connect, 115), _ => fault(Site::Connect, 11) }
    let r = Async::<TcpStream>::connect(addr).vawait();
    tcp_socket(addr);
    let Ok(a) = r else { panic!("the connection was made") };
    assert!(w().suspends == 2 && w().take_error_calls == 1, "the outcome is examined once the socket is writable");
    assert!(a.as_raw_fd() == FD && xworld::fd_is_open(FD) && xworld::poll_count() == 1);
    end(a);
}
proof! { fn c12_tcp_v4_now() { tcp_ok(any_v4(), 0) } }
proof! { fn c12_tcp_v4_in_progress() { tcp_ok(any_v4(), 1) } }
proof! { fn c12_tcp_v4_again() { tcp_ok(any_v4(), 2) } }
proof! { fn c12_tcp_v6_in_progress() { tcp_ok(any_v6(), 1) } }
fn code<T>(r: io::Result<T>) -> i32 { match r { Ok(t) => { core::mem::forget(t); 0 } Err(e) => e.raw_os_error().unwrap_or(-1) } }
/// The attempt fails later: the error found on the socket is reported.
proof! { fn c12_tcp_refused() {
    start();
    fault(Site::Connect, 115);
    unsafe { SO_ERROR = any_code(); }
    let addr = any_v4();
    let r = Async::<TcpStream>::connect(addr).vawait();
    tcp_socket(addr);
    assert!(code(r) == unsafe { SO_ERROR }, "the error of the attempt is reported");
    nothing_left();
} }
proof! { fn c12_tcp_refused_v6() {
    start();
    fault(Site::Connect, 115);
    unsafe { SO_ERROR = any_code(); }
    let addr = any_v6();
    let r = Async::<TcpStream>::connect(addr).vawait();
    tcp_socket(addr);
    assert!(code(r) == unsafe { SO_ERROR }, "the error of the attempt is reported");
    nothing_left();
} }
/// A step fails: the error is reported as it is, and nothing is left behind.
fn no_turn(_: usize) { panic!("fails at once") }
fn tcp_step(site: Site, c: i32) {
    start();
    if site != Site::TakeError { on_suspend(no_turn); }
    fault(site, c);
    let r = Async::<TcpStream>::connect(any_v4()).vawait();
    assert!(code(r) == c, "the error is reported as it came");
    nothing_left();
}
proof! { fn c12_tcp_no_socket() { tcp_step(Site::Socket, any_code()); } }
macro_rules! at_once { ($f:ident: $($n:ident $c:literal),*) => { $( proof! { fn $n() { $f(Site::Connect, $c) } } )* } }
at_once! { tcp_step: c12_tcp_refused_at_once 111, c12_tcp_unreachable_at_once 101, c12_tcp_already_at_once 114, c12_tcp_denied_at_once 13, c12_tcp_timeout_at_once 110, c12_tcp_interrupted_at_once 4 }
proof! { fn c12_tcp_no_registration() { tcp_step(Site::PollAdd, any_code()); } }
proof! { fn c12_tcp_no_interest() { tcp_step(Site::PollModify, any_code()); } }
proof! { fn c12_tcp_outcome_unknown() { tcp_step(Site::TakeError, any_code()); } }

fn path(b: &[u8]) -> &std::path::Path { std::path::Path::new(std::ffi::OsStr::from_bytes(b)) }
fn unix_socket() { let f = w().fds[0]; assert!(f.family == 1 && f.stype == 1 && f.nonblock && f.cloexec, "a non-blocking, close-on-exec stream socket"); assert!(w().connect_calls == 1); }
/// Path to address: a leading zero byte means an abstract name; any other zero byte is an error.
fn unix_path<const N: usize>(how: u8) {
    start();
    let p: [u8; N] = kani::any();
    let abs = N > 0 && p[0] == 0;
    let mut zero = false;
    let mut i = 0;
    while i < N { if p[i] == 0 { zero = true; } i += 1; }
    match how {
        0 => kani::assume(abs),
        1 => kani::assume(!zero),
        _ => kani::assume(!abs && zero),
    }
    fault(Site::Connect, 104);
    let r = Async::<UnixStream>::connect(path(&p)).vawait();
    if how == 2 {
        assert!(matches!(r, Err(_)) && w().connect_calls == 0, "a path with a zero byte in it is an error");
    } else {
        unix_socket();
        assert!(code(r) == 104);
        let skip = if how == 0 { 1 } else { 0 };
        let mut head = [0u8; 4];
        let mut i = 0;
        while i < 4 { if i + skip < N { head[i] = p[i + skip]; } i += 1; }
        assert!(w().fds[0].peer == Addr::Unix(how == 0, N - skip, head), "connecting to the address given");
    }
    assert!(xworld::fd_open_count() == 0);
}
proof! { fn c12_unix_abstract() { unix_path::<4>(0) } }
proof! { fn c12_unix_abstract_empty() { unix_path::<1>(0) } }
proof! { fn c12_unix_plain() { unix_path::<4>(1) } }
proof! { fn c12_unix_plain_one() { unix_path::<1>(1) } }
proof! { fn c12_unix_zero_inside() { unix_path::<4>(2) } }
fn unix_ok(how: u8) {
    start();
    match how { 0 => {} 1 => fault(Site::Connect, 115), _ => fault(Site::Connect, 11) }
    let r = Async::<UnixStream>::connect(path(b"sock")).vawait();
    unix_socket();
    let Ok(a) = r else { panic!("the connection was made") };
    assert!(w().suspends == 2);
    assert!(a.as_raw_fd() == FD && xworld::fd_is_open(FD) && xworld::poll_count() == 1);
    end(a);
}
proof! { fn c12_unix_now() { unix_ok(0) } }
proof! { fn c12_unix_in_progress() { unix_ok(1) } }
/// Writable although not connected: reported as an error.
proof! { fn c12_unix_not_connected() {
    start();
    fault(Site::Connect, 11);
    unsafe { PEER_ERROR = true; }
    let r = Async::<UnixStream>::connect(path(b"sock")).vawait();
    assert!(code(r) == 107, "a stream that is not connected is an error");
    nothing_left();
} }
fn unix_step(site: Site, c: i32) {
    start();
    on_suspend(no_turn);
    fault(site, c);
    let r = Async::<UnixStream>::connect(path(b"sock")).vawait();
    assert!(code(r) == c, "the error is reported as it came");
    nothing_left();
}
proof! { fn c12_unix_no_socket() { unix_step(Site::Socket, any_code()); } }
at_once! { unix_step: c12_unix_refused_at_once 111, c12_unix_not_found_at_once 2, c12_unix_denied_at_once 13 }
proof! { fn c12_unix_no_registration() { unix_step(Site::PollAdd, any_code()); } }
proof! { fn c12_unix_no_interest() { unix_step(Site::PollModify, any_code()); } }
