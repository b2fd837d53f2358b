//! Contract of the few `rustix` calls async-io makes.
pub mod fd {
    pub use xstd::os::fd::OwnedFd;
    pub use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
}
pub mod io {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub struct Errno(i32);
    impl Errno {
        pub const AGAIN: Errno = Errno(11);
        pub const PERM: Errno = Errno(1);
        pub const NOMEM: Errno = Errno(12);
        pub const EXIST: Errno = Errno(17);
        pub const NFILE: Errno = Errno(23);
        pub const PIPE: Errno = Errno(32);
        pub const AFNOSUPPORT: Errno = Errno(97);
        pub const ADDRINUSE: Errno = Errno(98);
        pub const ADDRNOTAVAIL: Errno = Errno(99);
        pub const NETDOWN: Errno = Errno(100);
        pub const NETUNREACH: Errno = Errno(101);
        pub const CONNABORTED: Errno = Errno(103);
        pub const CONNRESET: Errno = Errno(104);
        pub const NOBUFS: Errno = Errno(105);
        pub const NOTSUP: Errno = Errno(95);
        pub const OPNOTSUPP: Errno = Errno(95);
        pub const WOULDBLOCK: Errno = Errno(11);
        pub const INTR: Errno = Errno(4);
        pub const INVAL: Errno = Errno(22);
        pub const BADF: Errno = Errno(9);
        pub const ACCESS: Errno = Errno(13);
        pub const NOENT: Errno = Errno(2);
        pub const MFILE: Errno = Errno(24);
        pub const NAMETOOLONG: Errno = Errno(36);
        pub const ISCONN: Errno = Errno(106);
        pub const NOTCONN: Errno = Errno(107);
        pub const TIMEDOUT: Errno = Errno(110);
        pub const CONNREFUSED: Errno = Errno(111);
        pub const HOSTUNREACH: Errno = Errno(113);
        pub const ALREADY: Errno = Errno(114);
        pub const INPROGRESS: Errno = Errno(115);
        pub fn from_raw_os_error(e: i32) -> Self { Errno(e) }
        pub fn raw_os_error(self) -> i32 { self.0 }
        pub fn kind(self) -> xstd::io::ErrorKind { xstd::io::Error::from(self).kind() }
    }
    pub type Result<T> = core::result::Result<T, Errno>;
    impl From<Errno> for xstd::io::Error { fn from(e: Errno) -> Self { xstd::io::Error::from_raw_os_error(e.0) } }
    use std::os::fd::{AsFd, AsRawFd};
    pub fn ioctl_fionbio<F: AsFd>(fd: F, v: bool) -> Result<()> {
        let raw = fd.as_fd().as_raw_fd();
        xworld::w().nonblock_calls += 1;
        if let Some(code) = xworld::take_fault(xworld::Site::Nonblock) { return Err(Errno(code)); }
        xworld::fd_mut(raw).nonblock = v;
        Ok(())
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct FdFlags(u32);
    impl FdFlags { pub const CLOEXEC: FdFlags = FdFlags(1); pub const fn empty() -> Self { FdFlags(0) } pub fn contains(self, o: Self) -> bool { self.0 & o.0 == o.0 } }
    impl FdFlags {
        pub const fn union(self, o: Self) -> Self { Self(self.0 | o.0) }
        pub const fn bits(self) -> u32 { self.0 }
        pub const fn is_empty(self) -> bool { self.0 == 0 }
        pub fn insert(&mut self, o: Self) { self.0 |= o.0 }
        pub fn remove(&mut self, o: Self) { self.0 &= !o.0 }
        pub fn set(&mut self, o: Self, b: bool) { if b { self.insert(o) } else { self.remove(o) } }
        pub const fn intersects(self, o: Self) -> bool { self.0 & o.0 != 0 }
    }
    impl std::ops::BitAnd for FdFlags { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }
    impl std::ops::Sub for FdFlags { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 & !o.0) } }
    impl std::ops::BitOrAssign for FdFlags { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
    impl std::ops::BitOr for FdFlags { type Output = Self; fn bitor(self, o: Self) -> Self { FdFlags(self.0 | o.0) } }
    pub fn fcntl_getfd<F: AsFd>(fd: F) -> Result<FdFlags> { Ok(if xworld::fd_mut(fd.as_fd().as_raw_fd()).cloexec { FdFlags::CLOEXEC } else { FdFlags::empty() }) }
    pub fn fcntl_setfd<F: AsFd>(fd: F, f: FdFlags) -> Result<()> { xworld::fd_mut(fd.as_fd().as_raw_fd()).cloexec = f.contains(FdFlags::CLOEXEC); Ok(()) }
}
pub mod fs {
    use crate::io::{Errno, Result};
    use std::os::fd::{AsFd, AsRawFd};
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct OFlags(u32);
    impl OFlags { pub const NONBLOCK: OFlags = OFlags(0o4000); pub const fn empty() -> Self { OFlags(0) } pub fn contains(self, o: Self) -> bool { self.0 & o.0 == o.0 } }
    impl OFlags {
        pub const fn union(self, o: Self) -> Self { Self(self.0 | o.0) }
        pub const fn bits(self) -> u32 { self.0 }
        pub const fn is_empty(self) -> bool { self.0 == 0 }
        pub fn insert(&mut self, o: Self) { self.0 |= o.0 }
        pub fn remove(&mut self, o: Self) { self.0 &= !o.0 }
        pub fn set(&mut self, o: Self, b: bool) { if b { self.insert(o) } else { self.remove(o) } }
        pub const fn intersects(self, o: Self) -> bool { self.0 & o.0 != 0 }
    }
    impl std::ops::BitAnd for OFlags { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }
    impl std::ops::Sub for OFlags { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 & !o.0) } }
    impl std::ops::BitOrAssign for OFlags { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
    impl std::ops::BitOr for OFlags { type Output = Self; fn bitor(self, o: Self) -> Self { OFlags(self.0 | o.0) } }
    pub fn fcntl_getfl<F: AsFd>(fd: F) -> Result<OFlags> { Ok(if xworld::fd_mut(fd.as_fd().as_raw_fd()).nonblock { OFlags::NONBLOCK } else { OFlags::empty() }) }
    pub fn fcntl_setfl<F: AsFd>(fd: F, f: OFlags) -> Result<()> {
        xworld::w().nonblock_calls += 1;
        if let Some(code) = xworld::take_fault(xworld::Site::Nonblock) { return Err(Errno::from_raw_os_error(code)); }
        xworld::fd_mut(fd.as_fd().as_raw_fd()).nonblock = f.contains(OFlags::NONBLOCK); Ok(())
    }
}
pub mod net {
    use crate::io::{Errno, Result};
    use std::net::{SocketAddrV4, SocketAddrV6};
    use std::os::fd::{AsFd, AsRawFd};
    use xstd::os::fd::OwnedFd;
    use xworld::Addr;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct AddressFamily(u16);
    impl AddressFamily { pub const UNIX: Self = Self(1); pub const INET: Self = Self(2); pub const INET6: Self = Self(10); }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct SocketType(u32);
    impl SocketType { pub const STREAM: Self = Self(1); pub const DGRAM: Self = Self(2); }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct SocketFlags(u32);
    impl SocketFlags { pub const NONBLOCK: Self = Self(0o4000); pub const CLOEXEC: Self = Self(0o2000000); pub const fn empty() -> Self { Self(0) }
        pub fn contains(self, o: Self) -> bool { self.0 & o.0 == o.0 } pub const fn union(self, o: Self) -> Self { Self(self.0 | o.0) } }
    impl SocketFlags {
        pub const fn bits(self) -> u32 { self.0 }
        pub const fn is_empty(self) -> bool { self.0 == 0 }
        pub fn insert(&mut self, o: Self) { self.0 |= o.0 }
        pub fn remove(&mut self, o: Self) { self.0 &= !o.0 }
        pub fn set(&mut self, o: Self, b: bool) { if b { self.insert(o) } else { self.remove(o) } }
        pub const fn intersects(self, o: Self) -> bool { self.0 & o.0 != 0 }
    }
    impl std::ops::BitAnd for SocketFlags { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }
    impl std::ops::Sub for SocketFlags { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 & !o.0) } }
    impl std::ops::BitOr for SocketFlags { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
    impl std::ops::BitOrAssign for SocketFlags { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Protocol(u32);
    pub mod ipproto { use super::Protocol; pub const TCP: Protocol = Protocol(6); pub const UDP: Protocol = Protocol(17); }
    /// Contract of the real type: a pathname without NUL bytes and at most 107 bytes long, or an
    /// abstract name of at most 107 bytes. (Bytes beyond the first 4 are not tracked.)
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct SocketAddrUnix { pub abs: bool, pub len: usize, pub b: [u8; 4] }
    pub trait PathArg { fn bytes(&self) -> &[u8]; }
    impl PathArg for std::ffi::OsStr { fn bytes(&self) -> &[u8] { self.as_encoded_bytes() } }
    impl PathArg for std::path::Path { fn bytes(&self) -> &[u8] { self.as_os_str().as_encoded_bytes() } }
    impl PathArg for std::path::PathBuf { fn bytes(&self) -> &[u8] { self.as_os_str().as_encoded_bytes() } }
    impl PathArg for std::ffi::OsString { fn bytes(&self) -> &[u8] { self.as_encoded_bytes() } }
    impl PathArg for [u8] { fn bytes(&self) -> &[u8] { self } }
    impl PathArg for str { fn bytes(&self) -> &[u8] { self.as_bytes() } }
    impl<T: PathArg + ?Sized> PathArg for &T { fn bytes(&self) -> &[u8] { (**self).bytes() } }
    fn head(b: &[u8]) -> [u8; 4] { let mut r = [0; 4]; let mut i = 0; while i < 4 { if i < b.len() { r[i] = b[i]; } i += 1; } r }
    impl SocketAddrUnix {
        pub fn new<P: PathArg>(p: P) -> Result<Self> {
            let b = p.bytes();
            let mut i = 0;
            while i < b.len() { if b[i] == 0 { return Err(Errno::INVAL); } i += 1; }
            if b.len() > 107 { return Err(Errno::NAMETOOLONG); }
            Ok(SocketAddrUnix { abs: false, len: b.len(), b: head(b) })
        }
        pub fn new_abstract_name(b: &[u8]) -> Result<Self> {
            if b.len() > 107 { return Err(Errno::NAMETOOLONG); }
            Ok(SocketAddrUnix { abs: true, len: b.len(), b: head(b) })
        }
    }
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub enum SocketAddrAny { V4(SocketAddrV4), V6(SocketAddrV6), Unix(SocketAddrUnix) }
    impl From<SocketAddrUnix> for SocketAddrAny { fn from(a: SocketAddrUnix) -> Self { SocketAddrAny::Unix(a) } }
    impl From<std::net::SocketAddr> for SocketAddrAny { fn from(a: std::net::SocketAddr) -> Self { match a { std::net::SocketAddr::V4(v) => SocketAddrAny::V4(v), std::net::SocketAddr::V6(v) => SocketAddrAny::V6(v) } } }
    impl From<SocketAddrV4> for SocketAddrAny { fn from(a: SocketAddrV4) -> Self { SocketAddrAny::V4(a) } }
    impl From<SocketAddrV6> for SocketAddrAny { fn from(a: SocketAddrV6) -> Self { SocketAddrAny::V6(a) } }
    pub fn socket_with(d: AddressFamily, t: SocketType, f: SocketFlags, p: Option<Protocol>) -> Result<OwnedFd> {
        if let Some(code) = xworld::take_fault(xworld::Site::Socket) { return Err(Errno::from_raw_os_error(code)); }
        let fd = xworld::fd_open(f.contains(SocketFlags::NONBLOCK), f.contains(SocketFlags::CLOEXEC));
        let e = xworld::fd_mut(fd);
        e.family = d.0; e.stype = t.0; e.proto = p.map_or(0, |p| p.0);
        Ok(unsafe { OwnedFd::from_raw(fd) })
    }
    pub fn socket(d: AddressFamily, t: SocketType, p: Option<Protocol>) -> Result<OwnedFd> { socket_with(d, t, SocketFlags::empty(), p) }
    fn do_connect(raw: i32, a: Addr) -> Result<()> {
        xworld::w().connect_calls += 1;
        let e = xworld::fd_mut(raw);
        e.peer = a;
        // A blocking connect() would stall the thread.
        assert!(e.nonblock, "connect() on a socket that is still in blocking mode");
        match xworld::take_fault(xworld::Site::Connect) { Some(code) => Err(Errno::from_raw_os_error(code)), None => Ok(()) }
    }
    fn addr_of(a: &SocketAddrAny) -> Addr {
        match a {
            SocketAddrAny::V4(v) => Addr::V4(*v),
            SocketAddrAny::V6(v) => Addr::V6(*v),
            SocketAddrAny::Unix(u) => Addr::Unix(u.abs, u.len, u.b),
        }
    }
    impl SocketAddrAny {
        pub fn address_family(&self) -> AddressFamily { match self { SocketAddrAny::V4(_) => AddressFamily::INET, SocketAddrAny::V6(_) => AddressFamily::INET6, SocketAddrAny::Unix(_) => AddressFamily::UNIX } }
    }
    pub fn connect<F: AsFd>(fd: F, a: &std::net::SocketAddr) -> Result<()> { connect_any(fd, &(*a).into()) }
    pub fn connect_any<F: AsFd>(fd: F, a: &SocketAddrAny) -> Result<()> { do_connect(fd.as_fd().as_raw_fd(), addr_of(a)) }
    pub fn connect_v4<F: AsFd>(fd: F, a: &SocketAddrV4) -> Result<()> { do_connect(fd.as_fd().as_raw_fd(), Addr::V4(*a)) }
    pub fn connect_v6<F: AsFd>(fd: F, a: &SocketAddrV6) -> Result<()> { do_connect(fd.as_fd().as_raw_fd(), Addr::V6(*a)) }
    pub fn connect_unix<F: AsFd>(fd: F, a: &SocketAddrUnix) -> Result<()> { do_connect(fd.as_fd().as_raw_fd(), Addr::Unix(a.abs, a.len, a.b)) }
}
