//! Environment model of tokio: single-threaded, explicit scheduling. Tasks are polled by the
//! harness (`rt`), which chooses the order symbolically; a task that returned `Pending` is
//! runnable again only after one of its wakers was called.
#![allow(unused, clippy::all)]
pub mod rt;
pub mod sync;
pub mod task;
pub mod time;
pub fn nd_bool() -> bool { ::nd::bool() }
pub mod nd { pub fn clock() -> std::time::Duration { std::time::Duration::from_nanos(::nd::clock_ns()) } }
pub use task::spawn;
pub(crate) mod sh {
    use std::cell::UnsafeCell;
    use std::sync::Arc;
    /// Shared cell of the single-threaded model.
    pub struct Sh<T>(Arc<UnsafeCell<T>>);
    unsafe impl<T> Send for Sh<T> {}
    unsafe impl<T> Sync for Sh<T> {}
    impl<T> Clone for Sh<T> { fn clone(&self) -> Self { Sh(Arc::clone(&self.0)) } }
    impl<T> Sh<T> {
        pub fn new(t: T) -> Self { Sh(Arc::new(UnsafeCell::new(t))) }
        pub fn get(&self) -> &mut T { unsafe { &mut *self.0.get() } }
    }
}
