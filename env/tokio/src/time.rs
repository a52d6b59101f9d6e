use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
pub mod error { #[derive(Debug)] pub struct Elapsed; impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } } impl std::error::Error for Elapsed {} }
/// Whether pending timeouts may expire at the next poll.
pub static mut MAY_EXPIRE: bool = false;
/// How many times all pending timeouts were made to expire, and who waits for that.
pub static mut ELAPSED: usize = 0;
static mut WAITERS: Vec<std::task::Waker> = Vec::new();
/// Lets enough time pass for every pending timeout to expire; false when there is none.
pub fn elapse() -> bool { let w = unsafe { &mut *std::ptr::addr_of_mut!(WAITERS) }; if w.is_empty() { return false; } unsafe { ELAPSED += 1; } while let Some(k) = w.pop() { k.wake(); } true }
pub struct Timeout<F> { f: Pin<Box<F>>, since: usize }
pub fn timeout<F: Future>(_d: Duration, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), since: unsafe { ELAPSED } } }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Ok(v)),
            Poll::Pending if unsafe { ELAPSED } > self.since || unsafe { MAY_EXPIRE } && ::nd::bool() => Poll::Ready(Err(error::Elapsed)),
            Poll::Pending => { unsafe { (*std::ptr::addr_of_mut!(WAITERS)).push(cx.waker().clone()); } Poll::Pending }
        }
    }
}
pub async fn sleep(_d: Duration) { crate::task::yield_now().await }
