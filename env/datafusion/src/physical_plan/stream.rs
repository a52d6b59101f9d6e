use super::*; use futures::Stream; use std::pin::Pin; use std::task::{Context, Poll};
pub struct RecordBatchStreamAdapter<S> { schema: SchemaRef, s: Pin<Box<S>> }
impl<S> RecordBatchStreamAdapter<S> { pub fn new(schema: SchemaRef, s: S) -> Self { Self { schema, s: Box::pin(s) } } }
impl<S> Unpin for RecordBatchStreamAdapter<S> {}
impl<S: Stream<Item = Result<RecordBatch>>> Stream for RecordBatchStreamAdapter<S> { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { self.s.as_mut().poll_next(cx) } }
impl<S: Stream<Item = Result<RecordBatch>>> RecordBatchStream for RecordBatchStreamAdapter<S> { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
pub struct EmptyRecordBatchStream { schema: SchemaRef }
impl EmptyRecordBatchStream { pub fn new(schema: SchemaRef) -> Self { Self { schema } } }
impl Stream for EmptyRecordBatchStream { type Item = Result<RecordBatch>; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(None) } }
impl RecordBatchStream for EmptyRecordBatchStream { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
/// Batches produced by spawned tasks; errors of the tasks are delivered at the end.
pub struct RecordBatchReceiverStreamBuilder { schema: SchemaRef, tx: tokio::sync::mpsc::Sender<Result<RecordBatch>>, rx: tokio::sync::mpsc::Receiver<Result<RecordBatch>>, js: tokio::task::JoinSet<Result<()>> }
impl RecordBatchReceiverStreamBuilder {
    pub fn new(schema: SchemaRef, cap: usize) -> Self { let (tx, rx) = tokio::sync::mpsc::channel(cap); Self { schema, tx, rx, js: tokio::task::JoinSet::new() } }
    pub fn tx(&self) -> tokio::sync::mpsc::Sender<Result<RecordBatch>> { self.tx.clone() }
    pub fn spawn<F>(&mut self, f: F) where F: Future<Output = Result<()>> + Send + 'static { self.js.spawn(f) }
    pub fn build(self) -> SendableRecordBatchStream { drop(self.tx); Box::pin(Rx { schema: self.schema, rx: self.rx, js: self.js }) }
}
struct Rx { schema: SchemaRef, rx: tokio::sync::mpsc::Receiver<Result<RecordBatch>>, js: tokio::task::JoinSet<Result<()>> }
impl Stream for Rx { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let this = &mut *self;
    if let Poll::Ready(Some(x)) = this.rx.poll_recv(cx) { return Poll::Ready(Some(x)); }
    loop { match this.js.poll_join_next(cx) {
        Poll::Ready(Some(Ok(Ok(())))) => {}
        Poll::Ready(Some(Ok(Err(e)))) => { this.js.abort_all(); return Poll::Ready(Some(Err(e))); }
        Poll::Ready(Some(Err(_))) => { this.js.abort_all(); return Poll::Ready(Some(internal_err!("task aborted"))); }
        Poll::Ready(None) => return this.rx.poll_recv(cx),
        Poll::Pending => return match this.rx.poll_recv(cx) { Poll::Ready(Some(x)) => Poll::Ready(Some(x)), _ => Poll::Pending },
    } }
} }
impl RecordBatchStream for Rx { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }

/// Concatenation of several streams, polled in order; a pending stream does not block later ones.
pub struct Gather { pub schema: SchemaRef, pub v: Vec<SendableRecordBatchStream> }
impl Stream for Gather { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let mut i = 0; while i < self.v.len() { match self.v[i].as_mut().poll_next(cx) { Poll::Ready(Some(x)) => return Poll::Ready(Some(x)), Poll::Ready(None) => { drop(self.v.remove(i)); } Poll::Pending => i += 1 } }
    if self.v.is_empty() { Poll::Ready(None) } else { Poll::Pending }
} }
impl RecordBatchStream for Gather { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
/// Shared state of a repartition: a batch goes to output `hash(key) % n` (key = low byte of the tag),
/// or round robin.
pub struct RepState { pub v: Vec<SendableRecordBatchStream>, pub q: Vec<(std::collections::VecDeque<Result<RecordBatch>>, bool)>, pub hash: bool, pub rr: usize, pub w: Vec<Vec<std::task::Waker>> }
#[derive(Clone)] pub struct RepShared(pub Arc<std::cell::UnsafeCell<RepState>>); unsafe impl Send for RepShared {} unsafe impl Sync for RepShared {}
impl From<Arc<std::cell::UnsafeCell<RepState>>> for RepShared { fn from(a: Arc<std::cell::UnsafeCell<RepState>>) -> Self { Self(a) } }
pub struct RepStream { pub schema: SchemaRef, pub p: usize, pub st: RepShared }
impl Stream for RepStream { type Item = Result<RecordBatch>; fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let s = unsafe { &mut *self.st.0.get() };
    loop {
        if let Some(b) = s.q[self.p].0.pop_front() { return Poll::Ready(Some(b)); }
        let mut i = 0; let mut got = false;
        while i < s.v.len() && !got { match s.v[i].as_mut().poll_next(cx) {
            Poll::Ready(Some(Ok(b))) => { let n = s.q.len(); let k = if s.hash { (b.tag & 0xff) as usize % n } else { s.rr += 1; (s.rr - 1) % n }; s.q[k].0.push_back(Ok(b)); got = true; }
            Poll::Ready(Some(Err(e))) => { let e = Arc::new(e); let mut k = 0; while k < s.q.len() { s.q[k].0.push_back(Err(DataFusionError::Shared(Arc::clone(&e)))); k += 1; } s.v.clear(); got = true; }
            Poll::Ready(None) => { drop(s.v.remove(i)); if s.v.is_empty() { let mut k = 0; while k < s.w.len() { while let Some(w) = s.w[k].pop() { w.wake(); } k += 1; } } } Poll::Pending => i += 1 } }
        if !got { return if s.v.is_empty() { Poll::Ready(None) } else { while s.w.len() <= self.p { s.w.push(Vec::new()); } s.w[self.p].push(cx.waker().clone()); Poll::Pending }; }
        // whatever arrived may be for another output
        let mut k = 0; while k < s.w.len() { while let Some(w) = s.w[k].pop() { w.wake(); } k += 1; }
    }
} }
impl RecordBatchStream for RepStream { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
