//! `std::io` with a drop-glue-free `Error`.
pub use std::io::{ErrorKind, IoSlice, IoSliceMut, SeekFrom, Stderr, StderrLock, Stdin, StdinLock, Stdout, StdoutLock};
use std::fmt;
use std::mem::MaybeUninit;
pub type Result<T> = core::result::Result<T, Error>;

/// Contract of `std::io::Error`: an error kind plus, for OS errors, the raw code.
/// Custom payloads are kept only as an identity tag.
/// (`MaybeUninit` keeps the discriminant of `Result<_, Error>` apart from the symbolic kind.)
pub struct Error { kind: MaybeUninit<ErrorKind>, code: i32, tag: u64 }
impl Error {
    pub fn new<E: IntoTag>(kind: ErrorKind, e: E) -> Error { Error { kind: MaybeUninit::new(kind), code: 0, tag: e.tag() } }
    pub fn other<E: IntoTag>(e: E) -> Error { Error { kind: MaybeUninit::new(ErrorKind::Other), code: 0, tag: e.tag() } }
    pub fn from_raw_os_error(code: i32) -> Error { Error { kind: MaybeUninit::new(decode(code)), code, tag: 0 } }
    pub fn last_os_error() -> Error { Error::from_raw_os_error(xworld::w().errno) }
    pub fn kind(&self) -> ErrorKind { unsafe { self.kind.assume_init() } }
    pub fn raw_os_error(&self) -> Option<i32> { if self.code == 0 { None } else { Some(self.code) } }
    /// Ghost: which error value this is.
    pub fn tag(&self) -> u64 { self.tag }
    pub fn tagged(kind: ErrorKind, tag: u64) -> Error { Error { kind: MaybeUninit::new(kind), code: 0, tag } }
}
pub trait IntoTag { fn tag(&self) -> u64; }
impl IntoTag for &str { fn tag(&self) -> u64 { 1 } }
impl IntoTag for String { fn tag(&self) -> u64 { 1 } }
impl IntoTag for &String { fn tag(&self) -> u64 { 1 } }
impl IntoTag for Box<dyn std::error::Error + Send + Sync> { fn tag(&self) -> u64 { 1 } }
impl IntoTag for Box<str> { fn tag(&self) -> u64 { 1 } }
impl IntoTag for std::borrow::Cow<'_, str> { fn tag(&self) -> u64 { 1 } }
impl IntoTag for fmt::Error { fn tag(&self) -> u64 { 1 } }
impl IntoTag for std::ffi::NulError { fn tag(&self) -> u64 { 1 } }
impl IntoTag for u64 { fn tag(&self) -> u64 { *self } }
impl IntoTag for Error { fn tag(&self) -> u64 { self.tag } }
fn decode(code: i32) -> ErrorKind {
    match code {
        1 | 13 => ErrorKind::PermissionDenied,
        2 => ErrorKind::NotFound,
        4 => ErrorKind::Interrupted,
        11 => ErrorKind::WouldBlock,
        12 => ErrorKind::OutOfMemory,
        17 => ErrorKind::AlreadyExists,
        22 => ErrorKind::InvalidInput,
        32 => ErrorKind::BrokenPipe,
        98 => ErrorKind::AddrInUse,
        99 => ErrorKind::AddrNotAvailable,
        103 => ErrorKind::ConnectionAborted,
        104 => ErrorKind::ConnectionReset,
        107 => ErrorKind::NotConnected,
        110 => ErrorKind::TimedOut,
        111 => ErrorKind::ConnectionRefused,
        101 => ErrorKind::NetworkUnreachable,
        113 => ErrorKind::HostUnreachable,
        _ => ErrorKind::Other,
    }
}
impl fmt::Debug for Error { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Display for Error { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for Error {}
impl From<ErrorKind> for Error { fn from(kind: ErrorKind) -> Error { Error { kind: MaybeUninit::new(kind), code: 0, tag: 0 } } }
impl From<std::ffi::NulError> for Error { fn from(_: std::ffi::NulError) -> Error { ErrorKind::InvalidInput.into() } }

pub trait Read {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> Result<usize> {
        for b in bufs { if !b.is_empty() { return self.read(b); } }
        self.read(&mut [])
    }
    fn by_ref(&mut self) -> &mut Self where Self: Sized { self }
}
pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> Result<usize> {
        for b in bufs { if !b.is_empty() { return self.write(b); } }
        self.write(&[])
    }
    fn flush(&mut self) -> Result<()>;
    fn by_ref(&mut self) -> &mut Self where Self: Sized { self }
}
impl<R: Read + ?Sized> Read for &mut R {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> { (**self).read(b) }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> Result<usize> { (**self).read_vectored(b) }
}
impl<R: Write + ?Sized> Write for &mut R {
    fn write(&mut self, b: &[u8]) -> Result<usize> { (**self).write(b) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { (**self).write_vectored(b) }
    fn flush(&mut self) -> Result<()> { (**self).flush() }
}
pub struct BufReader<T: ?Sized>(pub T);
pub struct BufWriter<T: ?Sized>(pub T);
pub struct LineWriter<T: ?Sized>(pub T);
