#![allow(unused, clippy::all)]
use std::cell::UnsafeCell; use std::collections::VecDeque;
pub struct SegQueue<T>(UnsafeCell<VecDeque<T>>);
unsafe impl<T: Send> Send for SegQueue<T> {} unsafe impl<T: Send> Sync for SegQueue<T> {}
impl<T> std::panic::UnwindSafe for SegQueue<T> {} impl<T> std::panic::RefUnwindSafe for SegQueue<T> {}
impl<T> Default for SegQueue<T> { fn default() -> Self { Self::new() } }
impl<T> std::fmt::Debug for SegQueue<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SegQueue") } }
impl<T> SegQueue<T> {
    pub const fn new() -> Self { SegQueue(UnsafeCell::new(VecDeque::new())) }
    fn g(&self) -> &mut VecDeque<T> { unsafe { &mut *self.0.get() } }
    pub fn push(&self, t: T) { self.g().push_back(t) } pub fn pop(&self) -> Option<T> { self.g().pop_front() } pub fn len(&self) -> usize { self.g().len() } pub fn is_empty(&self) -> bool { self.g().is_empty() }
}
