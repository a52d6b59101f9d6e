//! Physical expressions: trees whose only relevant facts are their kind, column index and children.
use crate::arrow::datatypes::{Schema, SchemaRef};
use crate::error::Result;
use std::any::Any;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;
pub use expressions::PhysicalSortExpr;
pub type PhysicalExprRef = Arc<dyn PhysicalExpr>;
pub trait PhysicalExpr: Any + Send + Sync + Debug + Display {
    fn children(&self) -> Vec<&Arc<dyn PhysicalExpr>>;
    fn as_any(&self) -> &dyn Any;
}
impl dyn PhysicalExpr {
    pub fn is<T: PhysicalExpr>(&self) -> bool { (self as &dyn Any).is::<T>() }
    pub fn downcast_ref<T: PhysicalExpr>(&self) -> Option<&T> { (self as &dyn Any).downcast_ref() }
}
pub mod expressions {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct Column { name: String, index: usize }
    impl Column { pub fn new(name: &str, index: usize) -> Self { Self { name: name.to_string(), index } } pub fn name(&self) -> &str { &self.name } pub fn index(&self) -> usize { self.index } }
    #[derive(Debug, Clone)] pub struct Literal { pub v: crate::common::ScalarValue }
    impl Literal { pub fn new(v: crate::common::ScalarValue) -> Self { Self { v } } pub fn value(&self) -> &crate::common::ScalarValue { &self.v } }
    /// Any other expression over its children.
    #[derive(Debug, Clone)] pub struct ModelExpr { pub children: Vec<Arc<dyn PhysicalExpr>> }
    macro_rules! pe { ($t:ty, $c:expr) => {
        impl Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("expr") } }
        impl PhysicalExpr for $t { fn as_any(&self) -> &dyn Any { self } fn children(&self) -> Vec<&Arc<dyn PhysicalExpr>> { let f: fn(&$t) -> Vec<&Arc<dyn PhysicalExpr>> = $c; f(self) } }
    } }
    pe!(Column, |_| vec![]); pe!(Literal, |_| vec![]); pe!(ModelExpr, |s| s.children.iter().collect());
    #[derive(Debug, Clone)] pub struct PhysicalSortExpr { pub expr: Arc<dyn PhysicalExpr>, pub options: () }
}
#[derive(Debug, Clone)] pub struct LexOrdering(pub Vec<PhysicalSortExpr>);
impl LexOrdering { pub fn iter(&self) -> std::slice::Iter<'_, PhysicalSortExpr> { self.0.iter() } }
impl std::ops::Deref for LexOrdering { type Target = [PhysicalSortExpr]; fn deref(&self) -> &[PhysicalSortExpr] { &self.0 } }
impl<'a> IntoIterator for &'a LexOrdering { type Item = &'a PhysicalSortExpr; type IntoIter = std::slice::Iter<'a, PhysicalSortExpr>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
#[derive(Debug, Clone)] pub struct RangePartitioning { pub ordering: LexOrdering, pub partitions: usize }
impl RangePartitioning { pub fn ordering(&self) -> &LexOrdering { &self.ordering } pub fn partition_count(&self) -> usize { self.partitions } }
#[derive(Debug, Clone)]
pub enum Partitioning { RoundRobinBatch(usize), Hash(Vec<Arc<dyn PhysicalExpr>>, usize), Range(RangePartitioning), UnknownPartitioning(usize) }
impl Partitioning {
    pub fn partition_count(&self) -> usize { match self { Self::RoundRobinBatch(n) | Self::Hash(_, n) | Self::UnknownPartitioning(n) => *n, Self::Range(r) => r.partitions } }
}
impl PartialEq for Partitioning {
    fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::RoundRobinBatch(a), Self::RoundRobinBatch(b)) => a == b, (Self::Hash(a, n), Self::Hash(b, m)) => n == m && a.len() == b.len(), _ => false } }
}
impl Display for Partitioning { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Partitioning") } }
#[derive(Debug, Clone)] pub struct EquivalenceProperties { schema: SchemaRef, ordering: Option<LexOrdering> }
impl EquivalenceProperties {
    pub fn new(schema: SchemaRef) -> Self { Self { schema, ordering: None } }
    pub fn new_with_orderings(schema: SchemaRef, o: impl IntoIterator<Item = LexOrdering>) -> Self { Self { schema, ordering: o.into_iter().next() } }
    pub fn schema(&self) -> &SchemaRef { &self.schema }
    pub fn output_ordering(&self) -> Option<LexOrdering> { self.ordering.clone() }
    pub fn clear_orderings(&mut self) { self.ordering = None }
    pub fn clear_per_partition_constants(&mut self) {}
}
#[derive(Debug, Clone)] pub enum Distribution { UnspecifiedDistribution, SinglePartition, HashPartitioned(Vec<Arc<dyn PhysicalExpr>>), KeyPartitioned(Vec<Arc<dyn PhysicalExpr>>) }
