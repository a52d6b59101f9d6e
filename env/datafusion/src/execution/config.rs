use crate::config::{ConfigExtension, ConfigOptions}; use std::any::{Any, TypeId}; use std::sync::Arc;
#[derive(Clone)] struct E(TypeId, Arc<dyn Any + Send + Sync>);
/// Session configuration: options plus a map from type to extension.
#[derive(Clone)] pub struct SessionConfig { options: Arc<ConfigOptions>, ext: Vec<E> }
impl Default for SessionConfig { fn default() -> Self { Self { options: Arc::new(ConfigOptions::default()), ext: Vec::new() } } }
impl std::fmt::Debug for SessionConfig { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SessionConfig") } }
impl From<ConfigOptions> for SessionConfig { fn from(o: ConfigOptions) -> Self { Self { options: Arc::new(o), ext: Vec::new() } } }
impl SessionConfig {
    pub fn new() -> Self { Self::default() } pub fn from_string_hash_map(_: &std::collections::HashMap<String, String>) -> crate::error::Result<Self> { Ok(Self::default()) }
    pub fn options(&self) -> &ConfigOptions { &self.options } pub fn options_mut(&mut self) -> &mut ConfigOptions { Arc::make_mut(&mut self.options) } pub fn config_options(&self) -> &Arc<ConfigOptions> { &self.options }
    pub fn get_extension<T: Any + Send + Sync>(&self) -> Option<Arc<T>> { let mut i = 0; while i < self.ext.len() { if self.ext[i].0 == TypeId::of::<T>() { return Arc::clone(&self.ext[i].1).downcast().ok(); } i += 1; } None }
    pub fn set_extension<T: Any + Send + Sync>(&mut self, e: Arc<T>) { let mut i = 0; while i < self.ext.len() { if self.ext[i].0 == TypeId::of::<T>() { self.ext[i].1 = e; return; } i += 1; } self.ext.push(E(TypeId::of::<T>(), e)); }
    pub fn with_extension<T: Any + Send + Sync>(mut self, e: Arc<T>) -> Self { self.set_extension(e); self }
    pub fn with_option_extension<T: ConfigExtension>(mut self, e: T) -> Self { self.options_mut().extensions.insert(e); self }
    pub fn target_partitions(&self) -> usize { self.options.execution.target_partitions } pub fn with_target_partitions(mut self, n: usize) -> Self { self.options_mut().execution.target_partitions = n; self }
    pub fn batch_size(&self) -> usize { self.options.execution.batch_size } pub fn with_batch_size(mut self, n: usize) -> Self { self.options_mut().execution.batch_size = n; self }
}
