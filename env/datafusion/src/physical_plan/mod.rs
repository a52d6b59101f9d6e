//! The `ExecutionPlan` trait of DataFusion 55 (same methods, same defaults) and the plan nodes the
//! planner inspects or builds.
use crate::arrow::array::RecordBatch; use crate::arrow::datatypes::{Schema, SchemaRef};
use crate::common::tree_node::{DynTreeNode, Transformed, TreeNode, TreeNodeRecursion};
use crate::config::ConfigOptions; pub use crate::common::{ColumnStatistics, Statistics}; pub use crate::error::{DataFusionError, Result};
pub use crate::execution::{RecordBatchStream, SendableRecordBatchStream, TaskContext};
pub use crate::physical_expr::{Distribution, EquivalenceProperties, LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr, expressions};
pub use crate::internal_err;
pub use metrics::Metric;
use std::any::Any; use std::fmt::{self, Debug}; use std::sync::Arc;
pub mod nodes; pub mod run; pub mod stream; pub mod statistics;
/// DataFusion's own metrics sources, from the cargo registry.
#[path = "../metrics_upstream/mod.rs"] pub mod metrics;
pub use statistics::{ChildStats, StatisticsArgs, StatisticsContext}; pub use stream::EmptyRecordBatchStream;
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum DisplayFormatType { Default, Verbose, TreeRender }
pub trait DisplayAs { fn fmt_as(&self, t: DisplayFormatType, f: &mut fmt::Formatter) -> fmt::Result; }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Boundedness { Bounded, Unbounded { requires_infinite_memory: bool } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum EmissionType { Incremental, Final, Both }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum SchedulingType { NonCooperative, Cooperative }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum EvaluationType { Lazy, Eager }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum CardinalityEffect { Unknown, Equal, LowerEqual, GreaterEqual }
#[derive(Clone, Copy)] pub enum InvariantLevel { Always, Executable }
#[derive(Debug, Clone)]
pub struct PlanProperties { pub eq_properties: EquivalenceProperties, pub partitioning: Partitioning, pub emission_type: EmissionType, pub boundedness: Boundedness, pub evaluation_type: EvaluationType, pub scheduling_type: SchedulingType, output_ordering: Option<LexOrdering> }
impl PlanProperties {
    pub fn new(eq_properties: EquivalenceProperties, partitioning: Partitioning, emission_type: EmissionType, boundedness: Boundedness) -> Self { let output_ordering = eq_properties.output_ordering(); Self { eq_properties, partitioning, emission_type, boundedness, evaluation_type: EvaluationType::Lazy, scheduling_type: SchedulingType::NonCooperative, output_ordering } }
    pub fn with_partitioning(mut self, p: Partitioning) -> Self { self.partitioning = p; self }
    pub fn set_eq_properties(&mut self, e: EquivalenceProperties) { self.output_ordering = e.output_ordering(); self.eq_properties = e; }
    pub fn with_eq_properties(mut self, e: EquivalenceProperties) -> Self { self.set_eq_properties(e); self }
    pub fn with_boundedness(mut self, b: Boundedness) -> Self { self.boundedness = b; self } pub fn with_emission_type(mut self, e: EmissionType) -> Self { self.emission_type = e; self }
    pub fn with_scheduling_type(mut self, s: SchedulingType) -> Self { self.scheduling_type = s; self } pub fn with_evaluation_type(mut self, s: EvaluationType) -> Self { self.evaluation_type = s; self }
    pub fn equivalence_properties(&self) -> &EquivalenceProperties { &self.eq_properties } pub fn output_partitioning(&self) -> &Partitioning { &self.partitioning } pub fn output_ordering(&self) -> Option<&LexOrdering> { self.output_ordering.as_ref() }
    pub fn schema(&self) -> &SchemaRef { self.eq_properties.schema() }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ChildrenPropertiesMode { Keep, Recompute }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct ReplaceChildrenOptions { pub children_properties: ChildrenPropertiesMode }
impl ReplaceChildrenOptions { pub const fn new(children_properties: ChildrenPropertiesMode) -> Self { Self { children_properties } } }
pub struct InputDistributionRequirements(Vec<Distribution>);
impl InputDistributionRequirements { pub fn new(v: Vec<Distribution>) -> Self { Self(v) } pub fn co_partitioned(v: Vec<Distribution>) -> Self { Self(v) } pub fn per_child_distributions(&self) -> impl Iterator<Item = &Distribution> { self.0.iter() } pub fn into_per_child(self) -> Vec<Distribution> { self.0 } }
pub trait ExecutionPlan: Any + Debug + DisplayAs + Send + Sync {
    fn name(&self) -> &str;
    fn static_name() -> &'static str where Self: Sized { "model" }
    fn downcast_delegate(&self) -> Option<&dyn ExecutionPlan> { None }
    fn schema(&self) -> SchemaRef { Arc::clone(self.properties().schema()) }
    fn properties(&self) -> &Arc<PlanProperties>;
    fn check_invariants(&self, _c: InvariantLevel) -> Result<()> { Ok(()) }
    fn required_input_distribution(&self) -> Vec<Distribution> { vec![Distribution::UnspecifiedDistribution; self.children().len()] }
    fn input_distribution_requirements(&self) -> InputDistributionRequirements { InputDistributionRequirements::new(self.required_input_distribution()) }
    fn maintains_input_order(&self) -> Vec<bool> { vec![false; self.children().len()] }
    fn benefits_from_input_partitioning(&self) -> Vec<bool> { self.required_input_distribution().iter().map(|d| !matches!(d, Distribution::SinglePartition)).collect() }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>>;
    fn replace_children(self: Arc<Self>, children: Vec<Arc<dyn ExecutionPlan>>, options: ReplaceChildrenOptions) -> Result<Arc<dyn ExecutionPlan>> {
        match options.children_properties { ChildrenPropertiesMode::Keep => self.with_new_children_and_same_properties(children), ChildrenPropertiesMode::Recompute => self.with_new_children(children) }
    }
    fn apply_expressions(&self, f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion>;
    fn with_new_children(self: Arc<Self>, children: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>>;
    fn with_new_children_and_same_properties(self: Arc<Self>, children: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { self.with_new_children(children) }
    fn reset_state(self: Arc<Self>) -> Result<Arc<dyn ExecutionPlan>> { let c = self.children().into_iter().cloned().collect(); self.replace_children(c, ReplaceChildrenOptions::new(ChildrenPropertiesMode::Keep)) }
    fn repartitioned(&self, _n: usize, _c: &ConfigOptions) -> Result<Option<Arc<dyn ExecutionPlan>>> { Ok(None) }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream>;
    fn metrics(&self) -> Option<metrics::MetricsSet> { None }
    fn partition_statistics(&self, _p: Option<usize>) -> Result<Arc<Statistics>> { Ok(Arc::new(Statistics::new_unknown(&self.schema()))) }
    fn statistics_from_inputs(&self, _i: &[Arc<Statistics>], a: &StatisticsArgs) -> Result<Arc<Statistics>> { if unsafe { ANY_STATISTICS } { return Ok(Arc::new(any_statistics(&self.schema()))); } self.partition_statistics(a.partition()) }
    fn child_stats_requests(&self, _p: Option<usize>) -> Vec<ChildStats> { self.children().iter().map(|_| ChildStats::Skip).collect() }
    fn supports_limit_pushdown(&self) -> bool { false }
    fn with_fetch(&self, _l: Option<usize>) -> Option<Arc<dyn ExecutionPlan>> { None }
    fn fetch(&self) -> Option<usize> { None }
    fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::Unknown }
    #[doc(hidden)] fn model_builtin(&self) -> bool { false }
    fn with_preserve_order(&self, _p: bool) -> Option<Arc<dyn ExecutionPlan>> { None }
    fn with_new_state(&self, _s: Arc<dyn Any + Send + Sync>) -> Option<Arc<dyn ExecutionPlan>> { None }
}
impl dyn ExecutionPlan {
    pub fn is<T: ExecutionPlan>(&self) -> bool { match self.downcast_delegate() { Some(d) => d.is::<T>(), None => (self as &dyn Any).is::<T>() } }
    pub fn downcast_ref<T: ExecutionPlan>(&self) -> Option<&T> { match self.downcast_delegate() { Some(d) => d.downcast_ref::<T>(), None => (self as &dyn Any).downcast_ref() } }
}
pub trait ExecutionPlanProperties { fn output_partitioning(&self) -> &Partitioning; fn output_ordering(&self) -> Option<&LexOrdering>; fn boundedness(&self) -> Boundedness; fn pipeline_behavior(&self) -> EmissionType; fn equivalence_properties(&self) -> &EquivalenceProperties; }
macro_rules! epp { ($t:ty) => { impl ExecutionPlanProperties for $t {
    fn output_partitioning(&self) -> &Partitioning { self.properties().output_partitioning() } fn output_ordering(&self) -> Option<&LexOrdering> { self.properties().output_ordering() }
    fn boundedness(&self) -> Boundedness { self.properties().boundedness } fn pipeline_behavior(&self) -> EmissionType { self.properties().emission_type } fn equivalence_properties(&self) -> &EquivalenceProperties { self.properties().equivalence_properties() }
} } }
epp!(Arc<dyn ExecutionPlan>); epp!(&dyn ExecutionPlan);
impl DynTreeNode for dyn ExecutionPlan {
    fn arc_children(&self) -> Vec<&Arc<Self>> { self.children() }
    fn with_new_arc_children(&self, arc_self: Arc<Self>, new_children: Vec<Arc<Self>>) -> Result<Arc<Self>> { with_new_children_if_necessary(arc_self, new_children) }
}
pub fn with_new_children_if_necessary(plan: Arc<dyn ExecutionPlan>, children: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
    let old = plan.children();
    if children.len() != old.len() { return internal_err!("Wrong number of children"); }
    let mut same = true; let mut i = 0;
    while i < old.len() { if !Arc::ptr_eq(&children[i], old[i]) { same = false; } i += 1; }
    if old.is_empty() || !same { plan.replace_children(children, ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute)) } else { Ok(plan) }
}
pub struct D<'a>(pub &'a dyn ExecutionPlan);
impl<'a> fmt::Display for D<'a> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("plan") } }
pub mod display {
    pub use super::{DisplayAs, DisplayFormatType}; use super::*;
    pub struct DisplayableExecutionPlan<'a>(&'a dyn ExecutionPlan);
    impl<'a> DisplayableExecutionPlan<'a> { pub fn new(p: &'a dyn ExecutionPlan) -> Self { Self(p) } pub fn with_metrics(p: &'a dyn ExecutionPlan) -> Self { Self(p) } pub fn set_show_statistics(self, _: bool) -> Self { self } pub fn one_line(&self) -> D<'a> { D(self.0) } pub fn indent(&self, _: bool) -> D<'a> { D(self.0) } }
}
pub fn displayable(p: &dyn ExecutionPlan) -> display::DisplayableExecutionPlan<'_> { display::DisplayableExecutionPlan::new(p) }
pub mod execution_plan { pub use super::*; }
pub fn reset_plan_states(plan: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> { use crate::common::tree_node::{Transformed, TreeNode, TransformedResult}; plan.transform_up(|p| Ok(Transformed::yes(p.reset_state()?))).data() }
pub mod projection { pub use super::nodes::{ProjectionExec, ProjectionExpr}; }
pub mod filter { pub use super::nodes::FilterExec; }
pub mod aggregates { pub use super::nodes::{AggregateExec, AggregateMode, PhysicalGroupBy, AggregateFunctionExpr}; }
pub mod analyze { pub use super::nodes::AnalyzeExec; }
pub mod coalesce_partitions { pub use super::nodes::CoalescePartitionsExec; }
pub mod empty { pub use super::nodes::EmptyExec; }
pub mod joins { pub use super::nodes::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, SortMergeJoinExec, SymmetricHashJoinExec, PartitionMode, JoinOn}; pub mod utils { pub use super::super::nodes::{ColumnIndex, JoinFilter}; } }
pub mod limit { pub use super::nodes::{GlobalLimitExec, LocalLimitExec}; }
pub mod repartition { pub use super::nodes::RepartitionExec; }
pub mod sorts { pub mod sort { pub use super::super::nodes::SortExec; } pub mod sort_preserving_merge { pub use super::super::nodes::SortPreservingMergeExec; } }
pub mod union { pub use super::nodes::{InterleaveExec, UnionExec}; }
pub mod windows { pub use super::nodes::{BoundedWindowAggExec, WindowAggExec}; }

/// Whatever a node estimates, when a harness asks for it: rows, bytes and bytes of every column, in the order the nodes are asked.
pub static mut ANY_STATISTICS: bool = false; pub static mut ESTIMATES: Vec<[Option<usize>; 3]> = Vec::new(); pub static mut ASKED: usize = 0;
pub fn any_statistics(s: &crate::arrow::datatypes::Schema) -> Statistics { let mut t = Statistics::new_unknown(s); let e = unsafe { let e = &*std::ptr::addr_of!(ESTIMATES); ASKED += 1; e[ASKED - 1] };
    let p = |v: Option<usize>| match v { None => crate::common::stats::Precision::Absent, Some(v) => crate::common::stats::Precision::Inexact(v) };
    t.num_rows = p(e[0]); t.total_byte_size = p(e[1]); for c in t.column_statistics.iter_mut() { c.byte_size = p(e[2]); } t }
