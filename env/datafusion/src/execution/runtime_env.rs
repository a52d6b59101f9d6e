use super::memory_pool::{MemoryPool, UnboundedMemoryPool}; use std::sync::Arc;
#[derive(Clone, Debug)] pub struct RuntimeEnv { pub memory_pool: Arc<dyn MemoryPool> }
impl Default for RuntimeEnv { fn default() -> Self { Self { memory_pool: Arc::new(UnboundedMemoryPool::default()) } } }
