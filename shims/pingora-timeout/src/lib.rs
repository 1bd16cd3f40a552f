//! Stand-in for pingora-timeout on virtual time: the future is polled first, then the deadline, which starts at the
//! first poll that finds the future pending.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use vxrt::time::Timer;

#[derive(Debug)]
pub struct Elapsed;
impl std::fmt::Display for Elapsed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Timeout Elapsed")
    }
}
impl std::error::Error for Elapsed {}

pub struct Timeout<T> {
    value: T,
    delay: Option<Timer>,
    d: Duration,
}
impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.value) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        let d = me.d;
        let t = me.delay.get_or_insert_with(|| Timer::after(d));
        match Pin::new(t).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => Poll::Ready(Err(Elapsed)),
        }
    }
}
pub fn timeout<T: Future>(d: Duration, value: T) -> Timeout<T> {
    Timeout { value, delay: None, d }
}
pub use timeout as tokio_timeout;
pub use timeout as fast_timeout;
pub async fn sleep(d: Duration) {
    Timer::after(d).await
}
pub use sleep as fast_sleep;
