//! Explicit scheduler.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
pub const MAX: usize = 8;
/// Slots `0..MAX` belong to the harness, slot `MAX + i` to spawned task `i`.
pub static mut WOKEN: [bool; 256] = [true; 256];
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VT),
    |p| unsafe { WOKEN[p as usize] = true },
    |p| unsafe { WOKEN[p as usize] = true },
    |_| {},
);
/// Waker of task slot `i`.
pub fn waker(i: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new(i as *const (), &VT)) } }
pub fn woken(i: usize) -> bool { unsafe { WOKEN[i] } }
/// Polls `f` as task slot `i`.
pub fn poll_as<F: Future + ?Sized>(i: usize, f: Pin<&mut F>) -> Poll<F::Output> {
    unsafe { WOKEN[i] = false; }
    let w = waker(i);
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}
/// Polls a future that must complete without external help, at most `n` times.
pub fn block_on_n<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut i = 0;
    while i < n { if let Poll::Ready(v) = poll_as(MAX - 1, f.as_mut()) { return Some(v); } i += 1; }
    None
}
/// Like `block_on_n`, but the future must be ready within two polls.
pub fn block_on<F: Future>(f: F) -> F::Output { match block_on_n(f, 2) { Some(v) => v, None => panic!("model: future still pending") } }
/// Makes spawned task `i` run again (its future finished elsewhere).
pub fn wake_task(i: usize) { unsafe { WOKEN[MAX + i] = true } }
/// Spawned tasks, polled by the harness (or by their awaiter).
pub static mut TASKS: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = Vec::new();
fn tasks() -> &'static mut Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> { unsafe { &mut *std::ptr::addr_of_mut!(TASKS) } }
pub fn push(f: Pin<Box<dyn Future<Output = ()>>>) { tasks().push(Some(f)) }
pub fn spawned() -> usize { tasks().len() }
/// Polls spawned task `i` once, whether it was woken or not; true when it is finished or aborted.
pub fn step(i: usize) -> bool {
    let Some(mut f) = tasks()[i].take() else { return true };
    match poll_as(MAX + i, f.as_mut()) { Poll::Ready(()) => true, Poll::Pending => { tasks()[i] = Some(f); false } }
}
/// Polls every spawned task once.
pub fn step_all() { let mut i = 0; while i < spawned() { step(i); i += 1; } }
/// Polls once every spawned task that was woken since its last poll; false when there was none.
pub fn run_woken() -> bool { let mut any = false; let mut i = 0; while i < spawned() { if tasks()[i].is_some() && woken(MAX + i) { any = true; step(i); } i += 1; } any }
/// Whether spawned task `i` is unfinished and was woken since its last poll.
pub fn ready(i: usize) -> bool { tasks()[i].is_some() && woken(MAX + i) }
/// Runs woken tasks until none is left; false when that takes more than `n` rounds.
pub fn settle(n: usize) -> bool { let mut i = 0; while i < n { if !run_woken() { return true; } i += 1; } false }
/// Spawned tasks that have neither finished nor been aborted.
pub fn alive() -> usize { let mut n = 0; let mut i = 0; while i < spawned() { if tasks()[i].is_some() { n += 1; } i += 1; } n }
/// Drops every spawned task.
pub fn clear() { tasks().clear() }
