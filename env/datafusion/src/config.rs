use std::any::{Any, TypeId};
use std::sync::Arc;
use crate::error::{DataFusionError, Result};
pub use crate::extensions_options;
pub struct ConfigEntry { pub key: String, pub value: Option<String>, pub description: &'static str }
pub trait ConfigField: Sized { fn set(&mut self, key: &str, value: &str) -> Result<()>; fn get(&self) -> Option<String>; }
macro_rules! cf { ($($t:ty),*) => { $( impl ConfigField for $t {
    fn set(&mut self, _k: &str, v: &str) -> Result<()> { match v.parse() { Ok(x) => { *self = x; Ok(()) } Err(_) => Err(DataFusionError::Configuration(String::new())) } }
    fn get(&self) -> Option<String> { Some(self.to_string()) }
} )* } }
cf!(usize, u64, bool, f64, String, u32, i64);
pub trait ExtensionOptions: Send + Sync + 'static {
    fn as_any(&self) -> &dyn Any; fn as_any_mut(&mut self) -> &mut dyn Any; fn cloned(&self) -> Box<dyn ExtensionOptions>;
    fn set(&mut self, key: &str, value: &str) -> Result<()>; fn entries(&self) -> Vec<ConfigEntry>;
}
pub trait ConfigExtension: ExtensionOptions { const PREFIX: &'static str; }
struct Ext(&'static str, TypeId, Box<dyn ExtensionOptions>);
#[derive(Default)]
pub struct Extensions(Vec<Ext>);
impl Clone for Extensions { fn clone(&self) -> Self { Extensions(self.0.iter().map(|e| Ext(e.0, e.1, e.2.cloned())).collect()) } }
impl std::fmt::Debug for Extensions { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Extensions") } }
impl Extensions {
    pub fn iter(&self) -> impl Iterator<Item = (&'static str, &Box<dyn ExtensionOptions>)> { self.0.iter().map(|e| (e.0, &e.2)) }
    pub fn new() -> Self { Self::default() }
    pub fn insert<T: ConfigExtension>(&mut self, e: T) {
        let mut i = 0; while i < self.0.len() { if self.0[i].0 == T::PREFIX { self.0[i] = Ext(T::PREFIX, TypeId::of::<T>(), Box::new(e)); return; } i += 1; }
        self.0.push(Ext(T::PREFIX, TypeId::of::<T>(), Box::new(e)));
    }
    pub fn get<T: ConfigExtension>(&self) -> Option<&T> { for e in self.0.iter() { if e.1 == TypeId::of::<T>() { return e.2.as_any().downcast_ref(); } } None }
    pub fn get_mut<T: ConfigExtension>(&mut self) -> Option<&mut T> { for e in self.0.iter_mut() { if e.1 == TypeId::of::<T>() { return e.2.as_any_mut().downcast_mut(); } } None }
}
#[derive(Debug, Clone)] pub struct ExecutionOptions { pub target_partitions: usize, pub batch_size: usize, pub collect_statistics: bool }
#[derive(Debug, Clone)] pub struct OptimizerOptions { pub repartition_joins: bool, pub repartition_aggregations: bool, pub repartition_file_scans: bool, pub repartition_file_min_size: usize, pub hash_join_single_partition_threshold: usize, pub hash_join_single_partition_threshold_rows: usize, pub prefer_hash_join: bool, pub enable_round_robin_repartition: bool, pub enable_physical_uncorrelated_scalar_subquery: bool }
#[derive(Debug, Clone, Default)] pub struct ExplainOptions { pub show_statistics: bool, pub show_sizes: bool, pub show_schema: bool }
#[derive(Debug, Clone)]
pub struct ConfigOptions { pub execution: ExecutionOptions, pub optimizer: OptimizerOptions, pub explain: ExplainOptions, pub extensions: Extensions }
impl Default for ConfigOptions { fn default() -> Self { Self {
    execution: ExecutionOptions { target_partitions: 4, batch_size: 8192, collect_statistics: true },
    optimizer: OptimizerOptions { repartition_joins: true, repartition_aggregations: true, repartition_file_scans: true, repartition_file_min_size: 10485760, hash_join_single_partition_threshold: 1048576, hash_join_single_partition_threshold_rows: 131072, prefer_hash_join: true, enable_round_robin_repartition: true, enable_physical_uncorrelated_scalar_subquery: true },
    explain: Default::default(), extensions: Extensions::new() } } }
impl ConfigOptions {
    pub fn new() -> Self { Self::default() }
    pub fn set(&mut self, key: &str, value: &str) -> Result<()> {
        let Some((p, k)) = key.split_once('.') else { return Err(DataFusionError::Configuration(String::new())); };
        for e in self.extensions.0.iter_mut() { if e.0 == p { return e.2.set(k, value); } }
        Err(DataFusionError::Configuration(String::new()))
    }
    pub fn entries(&self) -> Vec<ConfigEntry> { vec![] }
}
