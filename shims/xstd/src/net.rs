//! Contract of the std sockets: every operation is a (scripted) operation on the ghost descriptor.
pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6};
use crate::io::{Error, IoSlice, IoSliceMut, Read, Result, Write};
use crate::os::fd::*;
use std::path::Path;
use xworld::{io_op, Op};

fn r<T>(x: core::result::Result<T, i32>) -> Result<T> { match x { Ok(t) => Ok(t), Err(c) => Err(Error::from_raw_os_error(c)) } }
/// An address that encodes a number.
pub fn addr_of(n: usize) -> SocketAddr { SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), n as u16)) }
pub fn num_of(a: &SocketAddr) -> usize { a.port() as usize }
#[derive(Clone, Debug, PartialEq)]
pub struct UnixSocketAddr { pub n: usize }
impl UnixSocketAddr {
    pub fn as_pathname(&self) -> Option<&Path> { None }
    pub fn is_unnamed(&self) -> bool { true }
}

/// Addresses that need no resolution.
pub trait ToSocketAddrs { fn first(&self) -> SocketAddr; }
impl ToSocketAddrs for SocketAddr { fn first(&self) -> SocketAddr { *self } }
impl ToSocketAddrs for SocketAddrV4 { fn first(&self) -> SocketAddr { SocketAddr::V4(*self) } }
impl ToSocketAddrs for SocketAddrV6 { fn first(&self) -> SocketAddr { SocketAddr::V6(*self) } }
impl ToSocketAddrs for (IpAddr, u16) { fn first(&self) -> SocketAddr { SocketAddr::new(self.0, self.1) } }
impl<const N: usize> ToSocketAddrs for [SocketAddr; N] { fn first(&self) -> SocketAddr { self[0] } }
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T { fn first(&self) -> SocketAddr { (**self).first() } }

macro_rules! sock {
    ($n:ident) => {
        #[derive(Debug)]
        pub struct $n { fd: OwnedFd }
        impl $n {
            fn raw(&self) -> i32 { self.fd.as_raw_fd() }
            pub fn take_error(&self) -> Result<Option<Error>> {
                xworld::w().take_error_calls += 1;
                xworld::fd_mut(self.raw());
                if let Some(c) = xworld::take_fault(xworld::Site::TakeError) { return Err(Error::from_raw_os_error(c)); }
                if let Some(c) = xworld::take_fault(xworld::Site::SoError) { return Ok(Some(Error::from_raw_os_error(c))); }
                Ok(None)
            }
            pub fn set_nonblocking(&self, b: bool) -> Result<()> {
                xworld::w().nonblock_calls += 1;
                if let Some(c) = xworld::take_fault(xworld::Site::Nonblock) { return Err(Error::from_raw_os_error(c)); }
                xworld::fd_mut(self.raw()).nonblock = b;
                Ok(())
            }
            pub fn try_clone(&self) -> Result<$n> { let nb = xworld::fd_mut(self.raw()).nonblock; Ok(unsafe { $n::from(OwnedFd::from_raw(xworld::fd_open(nb, true))) }) }
            /// A fresh blocking socket, as the std constructors return.
            pub fn fresh() -> $n { $n { fd: unsafe { OwnedFd::from_raw(xworld::fd_open(false, true)) } } }
        }
        impl AsFd for $n { fn as_fd(&self) -> BorrowedFd<'_> { self.fd.as_fd() } }
        impl AsRawFd for $n { fn as_raw_fd(&self) -> RawFd { self.raw() } }
        impl From<OwnedFd> for $n { fn from(fd: OwnedFd) -> $n { $n { fd } } }
        impl From<$n> for OwnedFd { fn from(s: $n) -> OwnedFd { s.fd } }
    };
}
/// Contract: blocking calls on these sockets stall the thread unless the descriptor is non-blocking.
fn op(o: Op, fd: i32, a: usize, b: usize, c: usize) -> core::result::Result<usize, i32> {
    assert!(xworld::fd_mut(fd).nonblock, "socket operation on a descriptor in blocking mode");
    io_op(o, fd, a, b, c)
}
macro_rules! stream {
    ($n:ident, $ad:ty, $mk:expr) => {
        sock!($n);
        impl $n {
            pub fn peek(&self, buf: &mut [u8]) -> Result<usize> { r(op(Op::Peek, self.raw(), buf.as_ptr() as usize, buf.len(), 0)) }
            pub fn peer_addr(&self) -> Result<$ad> { r(op(Op::PeerAddr, self.raw(), 0, 0, 0)).map($mk) }
            pub fn local_addr(&self) -> Result<$ad> { r(op(Op::LocalAddr, self.raw(), 0, 0, 0)).map($mk) }
            pub fn set_nodelay(&self, _: bool) -> Result<()> { Ok(()) }
            pub fn shutdown(&self, _: Shutdown) -> Result<()> { Ok(()) }
        }
        impl Read for &$n {
            fn read(&mut self, buf: &mut [u8]) -> Result<usize> { r(op(Op::Read, self.raw(), buf.as_ptr() as usize, buf.len(), 0)) }
            fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> Result<usize> { r(op(Op::ReadV, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
        }
        impl Write for &$n {
            fn write(&mut self, buf: &[u8]) -> Result<usize> { r(op(Op::Write, self.raw(), buf.as_ptr() as usize, buf.len(), 0)) }
            fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { r(op(Op::WriteV, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
            fn flush(&mut self) -> Result<()> { r(op(Op::Flush, self.raw(), 0, 0, 0)).map(|_| ()) }
        }
        impl Read for $n {
            fn read(&mut self, buf: &mut [u8]) -> Result<usize> { (&*self).read(buf) }
            fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> Result<usize> { (&*self).read_vectored(b) }
        }
        impl Write for $n {
            fn write(&mut self, buf: &[u8]) -> Result<usize> { (&*self).write(buf) }
            fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { (&*self).write_vectored(b) }
            fn flush(&mut self) -> Result<()> { (&*self).flush() }
        }
    };
}
stream!(TcpStream, SocketAddr, addr_of);
stream!(UnixStream, UnixSocketAddr, |n| UnixSocketAddr { n });
impl UnixStream {
    pub fn pair() -> Result<(UnixStream, UnixStream)> { r(io_op(Op::Pair, -1, 0, 0, 0)).map(|_| (UnixStream::fresh(), UnixStream::fresh())) }
}
macro_rules! listener {
    ($n:ident, $s:ident, $ad:ty, $mk:expr) => {
        sock!($n);
        impl $n {
            /// The accepted connection is a new, blocking descriptor.
            pub fn accept(&self) -> Result<($s, $ad)> { r(op(Op::Accept, self.raw(), 0, 0, 0)).map(|n| ($s::fresh(), $mk(n))) }
            pub fn local_addr(&self) -> Result<$ad> { r(op(Op::LocalAddr, self.raw(), 0, 0, 0)).map($mk) }
        }
    };
}
listener!(TcpListener, TcpStream, SocketAddr, addr_of);
listener!(UnixListener, UnixStream, UnixSocketAddr, |n| UnixSocketAddr { n });
impl TcpListener { pub fn bind<A: ToSocketAddrs>(a: A) -> Result<TcpListener> { let a = a.first(); r(io_op(Op::Bind, -1, num_of(&a), 0, 0)).map(|_| TcpListener::fresh()) } }
fn path_num(p: &Path) -> usize { p.as_os_str().as_encoded_bytes().as_ptr() as usize }
fn path_len(p: &Path) -> usize { p.as_os_str().as_encoded_bytes().len() }
impl UnixListener { pub fn bind<P: AsRef<Path>>(p: P) -> Result<UnixListener> { let p = p.as_ref(); r(io_op(Op::Bind, -1, path_num(p), path_len(p), 0)).map(|_| UnixListener::fresh()) } }

sock!(UdpSocket);
impl UdpSocket {
    pub fn bind<A: ToSocketAddrs>(a: A) -> Result<UdpSocket> { let a = a.first(); r(io_op(Op::Bind, -1, num_of(&a), 0, 0)).map(|_| UdpSocket::fresh()) }
    pub fn recv_from(&self, b: &mut [u8]) -> Result<(usize, SocketAddr)> { r(op(Op::RecvFrom, self.raw(), b.as_ptr() as usize, b.len(), 0)).map(|n| (n, addr_of(n))) }
    pub fn peek_from(&self, b: &mut [u8]) -> Result<(usize, SocketAddr)> { r(op(Op::PeekFrom, self.raw(), b.as_ptr() as usize, b.len(), 0)).map(|n| (n, addr_of(n))) }
    pub fn send_to<A: ToSocketAddrs>(&self, b: &[u8], a: A) -> Result<usize> { let a = a.first(); r(op(Op::SendTo, self.raw(), b.as_ptr() as usize, b.len(), num_of(&a))) }
    pub fn recv(&self, b: &mut [u8]) -> Result<usize> { r(op(Op::Recv, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
    pub fn peek(&self, b: &mut [u8]) -> Result<usize> { r(op(Op::Peek, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
    pub fn send(&self, b: &[u8]) -> Result<usize> { r(op(Op::Send, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
}
sock!(UnixDatagram);
impl UnixDatagram {
    pub fn bind<P: AsRef<Path>>(p: P) -> Result<UnixDatagram> { let p = p.as_ref(); r(io_op(Op::Bind, -1, path_num(p), path_len(p), 0)).map(|_| UnixDatagram::fresh()) }
    pub fn unbound() -> Result<UnixDatagram> { r(io_op(Op::Bind, -1, 0, 0, 1)).map(|_| UnixDatagram::fresh()) }
    pub fn pair() -> Result<(UnixDatagram, UnixDatagram)> { r(io_op(Op::Pair, -1, 0, 0, 0)).map(|_| (UnixDatagram::fresh(), UnixDatagram::fresh())) }
    pub fn recv_from(&self, b: &mut [u8]) -> Result<(usize, UnixSocketAddr)> { r(op(Op::RecvFrom, self.raw(), b.as_ptr() as usize, b.len(), 0)).map(|n| (n, UnixSocketAddr { n })) }
    pub fn send_to<P: AsRef<Path>>(&self, b: &[u8], p: P) -> Result<usize> { r(op(Op::SendTo, self.raw(), b.as_ptr() as usize, b.len(), path_num(p.as_ref()))) }
    pub fn recv(&self, b: &mut [u8]) -> Result<usize> { r(op(Op::Recv, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
    pub fn send(&self, b: &[u8]) -> Result<usize> { r(op(Op::Send, self.raw(), b.as_ptr() as usize, b.len(), 0)) }
}
