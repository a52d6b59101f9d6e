use crate::sh::Sh;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
#[derive(Debug)]
pub struct JoinError;
impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinError") } }
impl std::error::Error for JoinError {}
impl JoinError { pub fn is_panic(&self) -> bool { false } pub fn is_cancelled(&self) -> bool { true } pub fn into_panic(self) -> Box<dyn std::any::Any + Send> { Box::new(()) } }
/// State of one spawned future: finished value, or the future itself; empty after an abort.
struct Cellf<R> { f: Option<Pin<Box<dyn Future<Output = R> + Send>>>, r: Option<R>, w: Vec<std::task::Waker>, slot: usize }
impl<R> Cellf<R> { fn done(&mut self) { while let Some(w) = self.w.pop() { w.wake(); } crate::rt::wake_task(self.slot); } }
/// Abort-on-drop task. The scheduler (`rt::step`) or whoever awaits it polls it; dropping the handle
/// drops the future.
pub struct SpawnedTask<R> { c: Sh<Cellf<R>>, keep: bool }
impl<R> std::fmt::Debug for SpawnedTask<R> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SpawnedTask") } }
impl<R> Drop for SpawnedTask<R> { fn drop(&mut self) { if !self.keep { let s = self.c.get(); s.f = None; s.done(); } } }
fn register<R: 'static>(c: &Sh<Cellf<R>>) {
    c.get().slot = crate::rt::spawned();
    let c = c.clone();
    crate::rt::push(Box::pin(std::future::poll_fn(move |cx| { let s = c.get(); match s.f.take() { None => Poll::Ready(()), Some(mut f) => match f.as_mut().poll(cx) { Poll::Ready(r) => { s.r = Some(r); Poll::Ready(()) } Poll::Pending => { s.f = Some(f); Poll::Pending } } } })));
}
fn poll_cell<R>(c: &Sh<Cellf<R>>, cx: &mut Context<'_>) -> Poll<Result<R, JoinError>> {
    let s = c.get();
    if let Some(r) = s.r.take() { return Poll::Ready(Ok(r)); }
    match s.f.take() { None => Poll::Ready(Err(JoinError)), Some(mut f) => match f.as_mut().poll(cx) { Poll::Ready(r) => { s.done(); Poll::Ready(Ok(r)) } Poll::Pending => { s.f = Some(f); let mut i = 0; while i < s.w.len() { if s.w[i].data() == cx.waker().data() { return Poll::Pending; } i += 1; } s.w.push(cx.waker().clone()); Poll::Pending } } }
}
impl<R: 'static> SpawnedTask<R> {
    pub fn spawn<T>(task: T) -> Self where T: Future<Output = R> + Send + 'static, R: Send { let c = Sh::new(Cellf { f: Some(Box::pin(task) as _), r: None, w: Vec::new(), slot: 0 }); register(&c); Self { c, keep: false } }
    pub fn spawn_blocking<F>(f: F) -> Self where F: FnOnce() -> R + Send + 'static, R: Send { Self::spawn(async move { f() }) }
    pub async fn join(self) -> Result<R, JoinError> { self.await }
    pub async fn join_unwind(self) -> Result<R, JoinError> { self.await }
    pub fn abort(&self) { let s = self.c.get(); s.f = None; s.done(); }
}
impl<R> Future for SpawnedTask<R> { type Output = Result<R, JoinError>; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { poll_cell(&self.c, cx) } }
/// Detached task: keeps running when the handle is dropped.
pub struct JoinHandle<R> { c: Sh<Cellf<R>> }
impl<R> std::fmt::Debug for JoinHandle<R> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") } }
impl<R> Future for JoinHandle<R> { type Output = Result<R, JoinError>; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { poll_cell(&self.c, cx) } }
impl<R> JoinHandle<R> { pub fn abort(&self) { let s = self.c.get(); s.f = None; s.done(); } pub fn is_finished(&self) -> bool { self.c.get().f.is_none() } }
pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
    let c = Sh::new(Cellf { f: Some(Box::pin(f) as _), r: None, w: Vec::new(), slot: 0 }); register(&c); JoinHandle { c }
}
pub async fn yield_now() { let mut y = false; std::future::poll_fn(move |cx| { if y { Poll::Ready(()) } else { y = true; cx.waker().wake_by_ref(); Poll::Pending } }).await }
/// Task set; the members run as spawned tasks and are aborted when the set is dropped.
pub struct JoinSet<R> { v: Vec<SpawnedTask<R>> }
unsafe impl<R> Sync for JoinSet<R> {} unsafe impl<R> Send for JoinSet<R> {}
impl<R> Default for JoinSet<R> { fn default() -> Self { Self { v: Vec::new() } } }
impl<R> std::fmt::Debug for JoinSet<R> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinSet") } }
impl<R: Send + 'static> JoinSet<R> {
    pub fn new() -> Self { Self::default() }
    pub fn spawn<F>(&mut self, f: F) where F: Future<Output = R> + Send + 'static { self.v.push(SpawnedTask::spawn(f)); }
    pub fn len(&self) -> usize { self.v.len() } pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn abort_all(&mut self) { self.v.clear() } pub fn detach_all(&mut self) { while let Some(mut t) = self.v.pop() { t.keep = true; } }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<R, JoinError>>> {
        if self.v.is_empty() { return Poll::Ready(None); }
        let mut i = 0;
        while i < self.v.len() { if let Poll::Ready(r) = poll_cell(&self.v[i].c, cx) { let _ = self.v.remove(i); return Poll::Ready(Some(r)); } i += 1; }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<R, JoinError>> { std::future::poll_fn(|cx| self.poll_join_next(cx)).await }
    pub async fn join_all(mut self) -> Vec<R> { let mut o = Vec::new(); while let Some(r) = self.join_next().await { match r { Ok(r) => o.push(r), Err(_) => panic!("joined task was aborted") } } o }
}
