//! What `.await` means here: the future is polled by ghost task `xworld::task()`; whenever it is pending,
//! the environment (`xworld::ON_SUSPEND`) takes its turn, and the future is polled again.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub trait AwaitFuture: Future + Sized {
    fn vawait(self) -> Self::Output {
        let mut f = self;
        let mut f = unsafe { Pin::new_unchecked(&mut f) };
        loop {
            let wk = xworld::waker(xworld::w().task);
            match f.as_mut().poll(&mut Context::from_waker(&wk)) {
                Poll::Ready(v) => return v,
                Poll::Pending => xworld::suspend(),
            }
        }
    }
}
impl<F: Future> AwaitFuture for F {}
/// The body of an `async fn` has already run.
pub trait AwaitNow: Sized { fn vawait(self) -> Self { self } }
impl<T, E> AwaitNow for Result<T, E> {}
impl<T> AwaitNow for Option<T> {}
impl AwaitNow for () {}
impl AwaitNow for bool {}
impl AwaitNow for usize {}
impl AwaitNow for std::time::Duration {}
impl AwaitNow for crate::time::Instant {}
impl<A, B> AwaitNow for (A, B) {}
impl AwaitNow for crate::io::Error {}
/// An `async` block.
pub struct Now<F>(Option<F>);
pub fn now<T, F: FnOnce() -> T>(f: F) -> Now<F> { Now(Some(f)) }
impl<F> Unpin for Now<F> {}
impl<T, F: FnOnce() -> T> Future for Now<F> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<T> { Poll::Ready((self.0.take().expect("polled after completion"))()) }
}
