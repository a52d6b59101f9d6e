//! datafusion::common
pub use crate::error::{DataFusionError, Result, SharedResult, GenericError};
pub use crate::{internal_err, exec_err, plan_err, config_err, not_impl_err, resources_err, internal_datafusion_err,
    exec_datafusion_err, plan_datafusion_err, config_datafusion_err, not_impl_datafusion_err,
    assert_or_internal_err, assert_eq_or_internal_err, assert_ne_or_internal_err, extensions_options};
pub mod map;
pub use map::{HashMap, HashSet};
pub use map as hash_map;
pub mod stats;
pub use stats::{ColumnStatistics, Statistics};
/// DataFusion's own `tree_node.rs`, verbatim, from the cargo registry (copied by the generator).
#[path = "tree_node_upstream.rs"]
pub mod tree_node;
pub mod instant {
    /// Clock model: an arbitrary non-decreasing instant.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(std::time::Duration);
    impl Instant {
        pub fn now() -> Self { Instant(tokio::nd::clock()) }
        pub fn elapsed(&self) -> std::time::Duration { tokio::nd::clock().saturating_sub(self.0) }
        pub fn duration_since(&self, o: Instant) -> std::time::Duration { self.0.saturating_sub(o.0) }
    }
    impl std::ops::Sub for Instant { type Output = std::time::Duration; fn sub(self, o: Self) -> std::time::Duration { self.0.saturating_sub(o.0) } }
}
pub mod runtime {
    pub use tokio::task::JoinSet;
    pub use tokio::task::SpawnedTask;
    pub use tokio::task::JoinError;
}
pub fn human_readable_size(_: usize) -> String { String::new() }
pub fn human_readable_duration(_: u64) -> String { String::new() }
pub fn human_readable_count(_: usize) -> String { String::new() }
pub mod format { 
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)] pub enum ExplainFormat { #[default] Indent, Tree }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum MetricType { Summary, Dev }
    impl MetricType { pub fn included_types(self) -> Vec<MetricType> { match self { MetricType::Summary => vec![MetricType::Summary], MetricType::Dev => vec![MetricType::Summary, MetricType::Dev] } } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum MetricCategory { Rows, Bytes, Timing, Uncategorized }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum JoinType { Inner, Left, Right, Full, LeftSemi, RightSemi, LeftAnti, RightAnti, LeftMark, RightMark }
impl JoinType {
    pub fn is_outer(self) -> bool { matches!(self, Self::Left | Self::Right | Self::Full) }
    /// True when both inputs contribute columns and the join type can be swapped.
    pub fn supports_swap(&self) -> bool { true }
    pub fn swap(&self) -> JoinType { match self { Self::Inner => Self::Inner, Self::Full => Self::Full, Self::Left => Self::Right, Self::Right => Self::Left, Self::LeftSemi => Self::RightSemi, Self::RightSemi => Self::LeftSemi, Self::LeftAnti => Self::RightAnti, Self::RightAnti => Self::LeftAnti, Self::LeftMark => Self::RightMark, Self::RightMark => Self::LeftMark } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum JoinSide { Left, Right, None }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NullEquality { NullEqualsNothing, NullEqualsNull }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Hash)]
pub enum ScalarValue { Null, UInt64(Option<u64>), Int64(Option<i64>), Boolean(Option<bool>), Utf8(Option<String>) }
impl ScalarValue {
    pub fn try_from_array(a: &dyn crate::arrow::array::Array, i: usize) -> Result<Self> { Ok(ScalarValue::UInt64(a.value_at(i))) }
    pub fn is_null(&self) -> bool { matches!(self, Self::Null | Self::UInt64(None) | Self::Int64(None) | Self::Boolean(None) | Self::Utf8(None)) }
    pub fn data_type(&self) -> crate::arrow::datatypes::DataType { crate::arrow::datatypes::DataType::UInt64 }
    pub fn size(&self) -> usize { 8 }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column { pub relation: Option<TableReference>, pub name: String }
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TableReference { Bare { table: std::sync::Arc<str> } }
pub trait ToDFSchema {}

pub mod utils { pub mod memory { pub fn get_record_batch_memory_size(b: &crate::arrow::array::RecordBatch) -> usize { b.bytes } } }
