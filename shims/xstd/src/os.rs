pub use std::os::*;
pub mod fd {
    pub use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd};
    /// Contract of `OwnedFd`: closes the descriptor when dropped.
    #[derive(Debug)]
    pub struct OwnedFd { raw: RawFd }
    impl OwnedFd {
        pub unsafe fn from_raw(raw: RawFd) -> OwnedFd { OwnedFd { raw } }
    }
    impl FromRawFd for OwnedFd { unsafe fn from_raw_fd(raw: RawFd) -> OwnedFd { OwnedFd { raw } } }
    impl IntoRawFd for OwnedFd { fn into_raw_fd(self) -> RawFd { let r = self.raw; core::mem::forget(self); r } }
    impl AsRawFd for OwnedFd { fn as_raw_fd(&self) -> RawFd { self.raw } }
    impl AsFd for OwnedFd { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw(self.raw) } } }
    impl Drop for OwnedFd { fn drop(&mut self) { xworld::fd_close(self.raw) } }
}
pub mod unix {
    pub use std::os::unix::*;
    pub mod io { pub use crate::os::fd::*; }
    pub mod net { pub use crate::net::{UnixDatagram, UnixListener, UnixSocketAddr as SocketAddr, UnixStream}; }
    pub mod ffi { pub use std::os::unix::ffi::*; }
}
