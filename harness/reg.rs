//! Contract of registration and deregistration (C10).
use crate::vh_common::*;
use xstd::os::fd::OwnedFd;
use std::os::fd::{AsFd, AsRawFd};

fn end<T>(x: T) { core::mem::forget(x); }
fn start(slots: usize) { bounds(1, 1, 1, slots); setup(); unsafe { slab::STRICT = true; } }
fn entry(fd: i32) -> xworld::PollEntry { w().poll[xworld::poll_find(fd).unwrap()] }
fn code<T>(r: io::Result<T>) -> i32 { match r { Ok(t) => { core::mem::forget(t); 0 } Err(e) => e.raw_os_error().unwrap_or(-1) } }
fn any_code() -> i32 { let c: i32 = kani::any(); kani::assume(c > 0); c }

/// `new` makes the descriptor non-blocking and registers it once, without any interest.
proof! { fn c10_new() {
    start(2);
    let s = Sock::new();
    let fd = s.raw();
    let a = Async::new(s).unwrap();
    assert!(xworld::fd_mut(fd).nonblock, "the descriptor is in non-blocking mode");
    assert!(xworld::poll_count() == 1 && armed(fd) == (false, false), "registered, nothing armed");
    assert!(a.as_raw().as_raw_fd() == fd && a.get_ref().raw() == fd && a.as_ref().raw() == fd && a.as_fd().as_raw_fd() == fd);
    end(a);
} }
trait Raw { fn as_raw(&self) -> std::os::fd::BorrowedFd<'_>; }
impl Raw for Async<Sock> { fn as_raw(&self) -> std::os::fd::BorrowedFd<'_> { AsFd::as_fd(self) } }

/// `new_nonblocking` leaves the mode of the descriptor alone.
proof! { fn c10_new_nonblocking() {
    start(2);
    let s = Sock(unsafe { OwnedFd::from_raw(xworld::fd_open(kani::any(), true)) });
    let fd = s.raw();
    let before = xworld::fd_mut(fd).nonblock;
    let a = Async::new_nonblocking(s).unwrap();
    assert!(w().nonblock_calls == 0 && xworld::fd_mut(fd).nonblock == before);
    assert!(xworld::poll_count() == 1 && armed(fd) == (false, false));
    end(a);
} }
/// A failed `new` reports the error, closes the descriptor and leaves nothing behind.
fn failing(site: Site, f: fn(Sock) -> io::Result<Async<Sock>>) {
    start(1);
    let c = any_code();
    fault(site, c);
    let s = Sock::new();
    let fd = s.raw();
    assert!(code(f(s)) == c, "the error is reported as it came");
    assert!(!xworld::fd_is_open(fd), "the I/O object is dropped");
    assert!(xworld::poll_count() == 0);
    // The one place in the table is free again.
    let s = Sock::new();
    let fd = s.raw();
    let a = f(s).unwrap();
    pend(poll_r(&a, 0));
    assert!(armed(fd) == (true, false));
    deliver(fd, true, false).ok();
    assert!(wakes(0) == 1);
    end(a);
}
fn pend(p: Poll<io::Result<()>>) { assert!(p.is_pending()); }
proof! { fn c10_new_fails_nonblock() { failing(Site::Nonblock, Async::new) } }
proof! { fn c10_new_fails_add() { failing(Site::PollAdd, Async::new) } }
proof! { fn c10_new_nonblocking_fails_add() { failing(Site::PollAdd, Async::new_nonblocking) } }
proof! { fn c10_new_fails_nonblock_registers_nothing() {
    start(1);
    fault(Site::Nonblock, 9);
    assert!(code(Async::new(Sock::new())) == 9);
    assert!(w().delete_calls == 0 && xworld::poll_count() == 0, "never registered");
} }
/// Every source has a key of its own.
fn keys(k: bool) {
    start(3);
    let (s0, s1, s2) = (Sock::new(), Sock::new(), Sock::new());
    let (f0, f1, f2) = (s0.raw(), s1.raw(), s2.raw());
    let (a0, a1) = (Async::new(s0).unwrap(), Async::new(s1).unwrap());
    assert!(entry(f0).key != entry(f1).key);
    let (rest, fr) = if k { drop(a0); (a1, f1) } else { drop(a1); (a0, f0) };
    let a2 = Async::new(s2).unwrap();
    assert!(entry(f2).key != entry(fr).key, "a key in use is not given to another source");
    assert!(xworld::poll_count() == 2);
    pend(poll_r(&a2, 2)); pend(poll_r(&rest, 1));
    deliver(f2, true, false).ok();
    assert!(wakes(2) == 1 && wakes(1) == 0, "the key leads to its own source");
    end((rest, a2));
}
proof! { fn c10_keys_first() { keys(true) } }
proof! { fn c10_keys_second() { keys(false) } }
/// The interest is always registered under the source's own key.
proof! { fn c10_key_is_kept() {
    start(2);
    let (s0, s1) = (Sock::new(), Sock::new());
    let (f0, f1) = (s0.raw(), s1.raw());
    let (a0, a1) = (Async::new(s0).unwrap(), Async::new(s1).unwrap());
    let (k0, k1) = (entry(f0).key, entry(f1).key);
    pend(poll_r(&a0, 0)); pend(poll_w(&a1, 1)); pend(poll_w(&a0, 0));
    let mut f = a1.readable();
    pend(poll_f(&mut f, 2));
    assert!(entry(f0).key == k0 && entry(f1).key == k1);
    deliver(f0, kani::any(), kani::any()).ok();
    assert!(entry(f0).key == k0 && entry(f1).key == k1);
    end(f); end((a0, a1));
} }
/// Dropping deregisters, then closes (in that order: the stand-in checks it).
proof! { fn c10_drop() {
    start(1);
    let s = Sock::new();
    let fd = s.raw();
    let a = Async::new(s).unwrap();
    if kani::any() { pend(poll_r(&a, 0)); }
    let fails: bool = kani::any();
    if fails { fault(Site::PollDelete, any_code()); }
    drop(a);
    assert!(w().delete_calls == 1, "deregistered once");
    assert!(fails || xworld::poll_count() == 0);
    assert!(!xworld::fd_is_open(fd), "the I/O object is dropped");
    assert!(wakes(0) == 0);
    // The place in the table is free again.
    w().poll = [xworld::NO_ENTRY; xworld::NP];
    end(Async::new(Sock::new()).unwrap());
} }
/// `into_inner` deregisters and hands back the same object, still open.
proof! { fn c10_into_inner() {
    start(1);
    let s = Sock::new();
    let fd = s.raw();
    let a = Async::new(s).unwrap();
    if kani::any() { pend(poll_w(&a, 0)); }
    let s = a.into_inner().unwrap();
    assert!(s.raw() == fd && xworld::fd_is_open(fd), "the same descriptor, open");
    assert!(w().delete_calls == 1 && xworld::poll_count() == 0, "deregistered once");
    // It can be registered again.
    let a = Async::new(s).unwrap();
    pend(poll_r(&a, 1));
    assert!(armed(fd) == (true, false), "old interest is gone");
    deliver(fd, true, true).ok();
    assert!(wakes(0) == 0 && wakes(1) == 1, "old waiters are gone");
    end(a);
} }
proof! { fn c10_into_inner_fails() {
    start(1);
    let s = Sock::new();
    let fd = s.raw();
    let a = Async::new(s).unwrap();
    let c = any_code();
    fault(Site::PollDelete, c);
    assert!(code(a.into_inner()) == c, "the error is reported");
    assert!(!xworld::fd_is_open(fd) && w().delete_calls == 1);
    w().poll = [xworld::NO_ENTRY; xworld::NP];
    end(Async::new(Sock::new()).unwrap());
} }
/// Conversions from and to descriptors go through the same registration.
proof! { fn c10_conversions() {
    start(1);
    let s = Sock::new();
    let fd = s.raw();
    let a = Async::<Sock>::try_from(OwnedFd::from(s)).unwrap();
    assert!(xworld::fd_mut(fd).nonblock && xworld::poll_count() == 1);
    let o = OwnedFd::try_from(a).unwrap();
    assert!(o.as_raw_fd() == fd && xworld::fd_is_open(fd) && xworld::poll_count() == 0);
    end(o);
} }
macro_rules! conv { ($($n:ident $t:ty),*) => { $( proof! { fn $n() {
    start(1);
    let s = <$t>::fresh();
    let fd = s.as_raw_fd();
    let a = Async::<$t>::try_from(s).unwrap();
    assert!(xworld::fd_mut(fd).nonblock && xworld::poll_count() == 1 && armed(fd) == (false, false));
    assert!(AsRawFd::as_raw_fd(&a) == fd && a.get_ref().as_raw_fd() == fd);
    let s = a.into_inner().unwrap();
    assert!(s.as_raw_fd() == fd && xworld::fd_is_open(fd) && xworld::poll_count() == 0);
    let c = any_code();
    fault(Site::Nonblock, c);
    assert!(code(Async::<$t>::try_from(s)) == c);
    assert!(!xworld::fd_is_open(fd) && xworld::poll_count() == 0);
} } )* } }
conv! { c10_conv_tcp_listener xstd::net::TcpListener, c10_conv_tcp_stream xstd::net::TcpStream, c10_conv_udp xstd::net::UdpSocket,
        c10_conv_unix_listener xstd::net::UnixListener, c10_conv_unix_stream xstd::net::UnixStream, c10_conv_unix_datagram xstd::net::UnixDatagram }
/// Events that were collected before a source went away reach nobody.
fn drop_it() { unsafe { drop(GONE.take()); } }
static mut GONE: Option<Async<Sock>> = None;
proof! { fn c10_gone_during_wait() {
    start(1);
    let s = Sock::new();
    let fd = s.raw();
    let a = Async::new(s).unwrap();
    pend(poll_r(&a, 0));
    let key = entry(fd).key;
    unsafe { GONE = Some(a); STALE = key; polling::ON_WAIT = Some(stale); }
    assert!(react(None).is_ok());
    assert!(!xworld::fd_is_open(fd) && wakes(0) == 0);
} }
static mut STALE: usize = 0;
fn stale(ev: &mut polling::Events, _: Option<Duration>) { drop_it(); ev.push(polling::Event::new(unsafe { STALE }, true, true)); }
/// Every handle is gone before the descriptor number can be used by somebody else.
proof! { fn c10_number_reuse() {
    start(1);
    let s = Sock::new();
    let fd = s.raw();
    drop(Async::new(s).unwrap());
    let s = Sock::new();
    assert!(s.raw() == fd);
    let a = Async::new(s);
    assert!(a.is_ok(), "the old registration does not get in the way");
    end(a);
} }
