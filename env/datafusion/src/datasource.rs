//! File scans: groups of (possibly ranged) files.
use crate::common::{Statistics, stats::Precision}; use crate::error::Result; use crate::physical_expr::{LexOrdering, Partitioning}; use std::any::Any; use std::sync::Arc;
pub trait DataSource: Any + Send + Sync + std::fmt::Debug { fn partitions(&self) -> usize; }
impl dyn DataSource { pub fn downcast_ref<T: DataSource>(&self) -> Option<&T> { (self as &dyn Any).downcast_ref() } pub fn is<T: DataSource>(&self) -> bool { (self as &dyn Any).is::<T>() } }
#[derive(Debug, Clone, PartialEq, Eq)] pub struct FileRange { pub start: i64, pub end: i64 }
/// `id` identifies the file.
#[derive(Debug, Clone, PartialEq, Eq)] pub struct PartitionedFile { pub id: usize, pub size: u64, pub range: Option<FileRange> }
impl PartitionedFile { pub fn effective_size(&self) -> u64 { match &self.range { Some(r) => (r.end - r.start) as u64, None => self.size } } }
#[derive(Debug, Clone, Default)] pub struct FileGroup { files: Vec<PartitionedFile> }
impl FileGroup { pub fn new(files: Vec<PartitionedFile>) -> Self { Self { files } } pub fn files(&self) -> &[PartitionedFile] { &self.files } pub fn iter(&self) -> std::slice::Iter<'_, PartitionedFile> { self.files.iter() } pub fn len(&self) -> usize { self.files.len() } pub fn is_empty(&self) -> bool { self.files.is_empty() } pub fn into_inner(self) -> Vec<PartitionedFile> { self.files } pub fn push(&mut self, f: PartitionedFile) { self.files.push(f) } }
impl From<Vec<PartitionedFile>> for FileGroup { fn from(f: Vec<PartitionedFile>) -> Self { Self::new(f) } }
impl std::ops::Index<usize> for FileGroup { type Output = PartitionedFile; fn index(&self, i: usize) -> &PartitionedFile { &self.files[i] } }
/// Contract of the upstream partitioner that this model keeps: either `None`, or groups that hold
/// every byte of every input file exactly once. Here: one group per file, or `None`, chosen freely.
#[derive(Debug, Clone, Copy)] pub struct FileGroupPartitioner { target: usize, preserve: bool }
impl FileGroupPartitioner { pub fn new() -> Self { Self { target: 1, preserve: false } } pub fn with_target_partitions(mut self, n: usize) -> Self { self.target = n; self } pub fn with_repartition_file_min_size(self, _: usize) -> Self { self } pub fn with_preserve_order_within_groups(mut self, p: bool) -> Self { self.preserve = p; self }
    pub fn repartition_file_groups(&self, g: &[FileGroup]) -> Option<Vec<FileGroup>> { if tokio::nd_bool() { return None; } let mut o: Vec<FileGroup> = Vec::new(); let mut i = 0; for x in g { for f in x.iter() { if o.len() < self.target.max(1) { o.push(FileGroup::new(vec![f.clone()])) } else { let n = o.len(); o[i % n].push(f.clone()); i += 1; } } } Some(o) } }
#[derive(Debug, Clone)] pub struct FileScanConfig { pub file_groups: Vec<FileGroup>, pub output_ordering: Vec<LexOrdering>, pub output_partitioning: Option<Partitioning>, pub limit: Option<usize> }
impl DataSource for FileScanConfig { fn partitions(&self) -> usize { self.file_groups.len() } }
pub mod physical_plan { pub use super::{FileGroup, FileGroupPartitioner, FileScanConfig}; }
pub mod listing { pub use super::{PartitionedFile, FileRange}; }
pub mod memory { pub use crate::physical_plan::nodes::DataSourceExec; }
