//! Memory pool: a counter of reserved bytes with an optional limit.
use crate::error::{DataFusionError, Result}; use std::cell::Cell; use std::sync::Arc;
pub trait MemoryPool: Send + Sync + std::fmt::Debug { fn grow(&self, n: usize); fn shrink(&self, n: usize); fn try_grow(&self, n: usize) -> Result<()>; fn reserved(&self) -> usize; }
#[derive(Debug)] pub struct UnboundedMemoryPool { used: Cell<usize>, pub limit: usize }
unsafe impl Send for UnboundedMemoryPool {} unsafe impl Sync for UnboundedMemoryPool {}
impl Default for UnboundedMemoryPool { fn default() -> Self { Self { used: Cell::new(0), limit: usize::MAX } } }
pub type GreedyMemoryPool = UnboundedMemoryPool;
impl UnboundedMemoryPool { pub fn new(limit: usize) -> Self { Self { used: Cell::new(0), limit } } }
impl MemoryPool for UnboundedMemoryPool {
    fn grow(&self, n: usize) { self.used.set(self.used.get() + n) }
    fn shrink(&self, n: usize) { assert!(self.used.get() >= n, "memory pool shrunk below zero"); self.used.set(self.used.get() - n) }
    fn try_grow(&self, n: usize) -> Result<()> { if n > self.limit - self.used.get().min(self.limit) { return Err(DataFusionError::ResourcesExhausted(String::new())); } self.grow(n); Ok(()) }
    fn reserved(&self) -> usize { self.used.get() }
}
#[derive(Debug, Clone)] pub struct MemoryConsumer { name: String }
impl MemoryConsumer { pub fn clone_with_new_id(&self) -> Self { self.clone() } pub fn new(n: impl Into<String>) -> Self { Self { name: n.into() } } pub fn with_can_spill(self, _: bool) -> Self { self } pub fn name(&self) -> &str { &self.name }
    pub fn register(self, p: &Arc<dyn MemoryPool>) -> MemoryReservation { MemoryReservation { pool: Arc::clone(p), size: std::sync::atomic::AtomicUsize::new(0) } } }
#[derive(Debug)] pub struct MemoryReservation { pool: Arc<dyn MemoryPool>, size: std::sync::atomic::AtomicUsize }
use std::sync::atomic::Ordering::SeqCst;
impl MemoryReservation {
    pub fn size(&self) -> usize { self.size.load(SeqCst) }
    pub fn grow(&self, n: usize) { self.pool.grow(n); self.size.store(self.size() + n, SeqCst) }
    pub fn try_grow(&self, n: usize) -> Result<()> { self.pool.try_grow(n)?; self.size.store(self.size() + n, SeqCst); Ok(()) }
    pub fn shrink(&self, n: usize) { let s = self.size(); assert!(s >= n, "reservation shrunk below zero"); self.size.store(s - n, SeqCst); self.pool.shrink(n) }
    pub fn try_shrink(&self, n: usize) -> Result<usize> { let s = self.size(); if s < n { return Err(DataFusionError::Internal(String::new())); } self.shrink(n); Ok(s - n) }
    pub fn free(&self) -> usize { let s = self.size(); if s != 0 { self.shrink(s); } s }
    pub fn resize(&self, n: usize) { let s = self.size(); if n > s { self.grow(n - s) } else { self.shrink(s - n) } }
    pub fn try_resize(&self, n: usize) -> Result<()> { let s = self.size(); if n > s { self.try_grow(n - s) } else { self.shrink(s - n); Ok(()) } }
    pub fn split(&self, n: usize) -> Self { let s = self.size(); assert!(s >= n); self.size.store(s - n, SeqCst); Self { pool: Arc::clone(&self.pool), size: n.into() } }
    pub fn take(&mut self) -> Self { self.split(self.size()) }
    pub fn new_empty(&self) -> Self { Self { pool: Arc::clone(&self.pool), size: 0.into() } }
}
impl Drop for MemoryReservation { fn drop(&mut self) { self.free(); } }
