//! The `futures_io` traits async-io implements, over the stand-in `io::Error`.
use std::pin::Pin;
use std::task::{Context, Poll};
pub use xstd::io::{Error, ErrorKind, IoSlice, IoSliceMut, Result, SeekFrom};
pub trait AsyncRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>>;
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<Result<usize>> {
        for b in bufs { if !b.is_empty() { return self.poll_read(cx, b); } }
        self.poll_read(cx, &mut [])
    }
}
pub trait AsyncWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>>;
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
        for b in bufs { if !b.is_empty() { return self.poll_write(cx, b); } }
        self.poll_write(cx, &[])
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>>;
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>>;
}
