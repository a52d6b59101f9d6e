#![allow(unused, clippy::all)]
pub mod wrappers {
    use futures::Stream; use std::pin::Pin; use std::task::{Context, Poll};
    use tokio::sync::{mpsc, watch};
    pub struct UnboundedReceiverStream<T>(mpsc::UnboundedReceiver<T>);
    impl<T> UnboundedReceiverStream<T> { pub fn new(r: mpsc::UnboundedReceiver<T>) -> Self { Self(r) } pub fn into_inner(self) -> mpsc::UnboundedReceiver<T> { self.0 } pub fn close(&mut self) { self.0.close() } }
    impl<T> Stream for UnboundedReceiverStream<T> { type Item = T; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { self.0.poll_recv(cx) } }
    pub struct ReceiverStream<T>(mpsc::Receiver<T>);
    impl<T> ReceiverStream<T> { pub fn new(r: mpsc::Receiver<T>) -> Self { Self(r) } }
    impl<T> Stream for ReceiverStream<T> { type Item = T; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { self.0.poll_recv(cx) } }
    /// Yields the current value, then one item per observed change (intermediate values may be skipped).
    pub struct WatchStream<T> { r: watch::Receiver<T>, first: bool }
    impl<T> WatchStream<T> { pub fn new(r: watch::Receiver<T>) -> Self { Self { r, first: true } } pub fn from_changes(r: watch::Receiver<T>) -> Self { Self { r, first: false } } }
    impl<T> Unpin for WatchStream<T> {}
    impl<T: Clone> Stream for WatchStream<T> { type Item = T; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        if self.first { self.first = false; return Poll::Ready(Some(self.r.borrow_and_update().clone())); }
        match self.r.poll_changed(cx) { Poll::Ready(Ok(())) => Poll::Ready(Some(self.r.borrow_and_update().clone())), Poll::Ready(Err(_)) => Poll::Ready(None), Poll::Pending => Poll::Pending } } }
}
pub use futures::StreamExt; pub use futures::Stream;
