//! Plan nodes: shape, properties and the facts the distributed planner reads.
use super::*; use crate::common::{JoinSide, JoinType, NullEquality}; use std::any::Any;
type P = Arc<dyn ExecutionPlan>;
fn join_part(right: &P, mode: PartitionMode) -> Partitioning { match (mode, right.output_partitioning()) { (PartitionMode::Partitioned, Partitioning::Hash(e, n)) => Partitioning::Hash(e.clone(), *n), (_, o) => unk(o.partition_count()) } }
fn on_keys(on: &JoinOn) -> Vec<Distribution> { let mut l = Vec::new(); let mut r = Vec::new(); for (a, b) in on { l.push(Arc::clone(a)); r.push(Arc::clone(b)); } vec![Distribution::KeyPartitioned(l), Distribution::KeyPartitioned(r)] }
fn props(schema: SchemaRef, p: Partitioning) -> Arc<PlanProperties> { Arc::new(PlanProperties::new(EquivalenceProperties::new(schema), p, EmissionType::Incremental, Boundedness::Bounded)) }
fn unk(n: usize) -> Partitioning { Partitioning::UnknownPartitioning(n) }
fn like(p: &P) -> Arc<PlanProperties> { Arc::clone(p.properties()) }
fn one(mut c: Vec<P>) -> Result<P> { if c.len() == 1 { Ok(c.pop().unwrap()) } else { internal_err!("expected one child") } }
fn two(mut c: Vec<P>) -> Result<(P, P)> { if c.len() == 2 { let r = c.pop().unwrap(); Ok((c.pop().unwrap(), r)) } else { internal_err!("expected two children") } }
macro_rules! node { ($t:ident, $s:ident, $ch:expr, ($me:ident, $c:ident) $with:expr, { $($extra:tt)* }) => {
    impl DisplayAs for $t { fn fmt_as(&self, _: DisplayFormatType, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(stringify!($t)) } }
    impl ExecutionPlan for $t {
        fn model_builtin(&self) -> bool { true } fn name(&self) -> &str { stringify!($t) } fn properties(&self) -> &Arc<PlanProperties> { &self.props }
        fn children(&self) -> Vec<&P> { let $s = self; $ch }
        fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
        fn with_new_children(self: Arc<Self>, children: Vec<P>) -> Result<P> { let ($me, $c) = (self, children); $with }
        fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { Exec::run(self, p, c) }
        $($extra)*
    }
} }
/// Execution of a node; the default passes the single child's partition through.
trait Exec: ExecutionPlan { fn run(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { internal_err!("not modelled") } }
macro_rules! exec_pass { ($($t:ident),*) => { $( impl Exec for $t { fn run(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { self.input.execute(p, c) } } )* } }
macro_rules! exec_none { ($($t:ident),*) => { $( impl Exec for $t {} )* } }
exec_pass!(AnalyzeExec);
exec_none!(DataSourceExec);
use super::run;
macro_rules! exec { ($t:ident, ($s:ident, $p:ident, $c:ident) $b:expr) => { impl Exec for $t { fn run(&self, $p: usize, $c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { let $s = self; if $p >= $s.props.partitioning.partition_count() { return internal_err!("invalid partition"); } $b } } } }
exec!(FilterExec, (s, p, c) Ok(run::Limit::new(s.schema(), s.input.execute(p, c)?, 0, s.fetch)));
exec!(ProjectionExec, (s, p, c) { let i = s.input.execute(p, c)?; if s.swaps { Ok(Box::pin(run::Swap(i))) } else { Ok(i) } });
exec!(LocalLimitExec, (s, p, c) Ok(run::Limit::new(s.schema(), s.input.execute(p, c)?, 0, Some(s.n))));
exec!(GlobalLimitExec, (s, p, c) { if s.input.output_partitioning().partition_count() != 1 { return internal_err!("GlobalLimitExec requires a single input partition"); } Ok(run::Limit::new(s.schema(), s.input.execute(p, c)?, s.skip, s.n)) });
exec!(CoalescePartitionsExec, (s, p, c) { let _ = p; let g = Box::pin(stream::Gather { schema: s.schema(), v: run::all(&s.input, &c)? }); Ok(run::Limit::new(s.schema(), g, 0, s.fetch)) });
exec!(SortPreservingMergeExec, (s, p, c) { let _ = p; Ok(run::Limit::new(s.schema(), run::Block::new(s.schema(), run::all(&s.input, &c)?, |v| Ok(run::merge(v))), 0, s.fetch)) });
exec!(SortExec, (s, p, c) { if !s.pp && s.input.output_partitioning().partition_count() != 1 { return internal_err!("SortExec requires a single input partition"); } Ok(run::Limit::new(s.schema(), run::Block::new(s.schema(), vec![s.input.execute(p, c)?], |mut v| Ok(run::sorted(v.pop().unwrap()))), 0, s.fetch)) });
exec!(AggregateExec, (s, p, c) {
    if matches!(s.mode, AggregateMode::Final | AggregateMode::Single) && s.input.output_partitioning().partition_count() != 1 { return internal_err!("final aggregation requires a single input partition"); }
    let (m, g, sc, sets) = (s.mode, !s.group_by.is_true_no_grouping(), s.schema(), s.group_by.sets()); Ok(run::Block::new(s.schema(), vec![s.input.execute(p, c)?], move |mut v| run::aggregate(m, g, run::expand(sets, v.pop().unwrap()), &sc))) });
exec!(WindowAggExec, (s, p, c) Ok(run::Block::new(s.schema(), vec![s.input.execute(p, c)?], |mut v| Ok(run::window(v.pop().unwrap())))));
exec!(BoundedWindowAggExec, (s, p, c) Ok(run::Block::new(s.schema(), vec![s.input.execute(p, c)?], |mut v| Ok(run::window(v.pop().unwrap())))));
exec!(InterleaveExec, (s, p, c) { let mut v = Vec::new(); for i in &s.inputs { v.push(i.execute(p, Arc::clone(&c))?); } Ok(Box::pin(stream::Gather { schema: s.schema(), v })) });
exec!(HashJoinExec, (s, p, c) { let j = match s.mode { PartitionMode::CollectLeft => run::collect_left(&s.cell, s.schema(), &s.left, &s.right, s.join_type, false, p, c)?, _ => run::partitioned(s.schema(), &s.left, &s.right, s.join_type, p, c)? }; Ok(run::Limit::new(s.schema(), j, 0, s.fetch)) });
exec!(NestedLoopJoinExec, (s, p, c) run::collect_left(&s.cell, s.schema(), &s.left, &s.right, s.join_type, false, p, c));
exec!(CrossJoinExec, (s, p, c) run::collect_left(&s.cell, s.schema(), &s.left, &s.right, JoinType::Inner, true, p, c));
exec!(SortMergeJoinExec, (s, p, c) run::partitioned(s.schema(), &s.left, &s.right, s.join_type, p, c));
exec!(SymmetricHashJoinExec, (s, p, c) run::partitioned(s.schema(), &s.left, &s.right, s.join_type, p, c));
impl Exec for EmptyExec { fn run(&self, p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { if p >= self.props.partitioning.partition_count() { return internal_err!("invalid partition"); } Ok(Box::pin(EmptyRecordBatchStream::new(self.schema()))) } }
impl Exec for UnionExec { fn run(&self, mut p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { let mut i = 0; while i < self.inputs.len() { let n = self.inputs[i].output_partitioning().partition_count(); if p < n { return self.inputs[i].execute(p, c); } p -= n; i += 1; } internal_err!("invalid partition") } }
impl Exec for RepartitionExec { fn run(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
    let outs = self.part.partition_count(); if p >= outs { return internal_err!("invalid partition"); }
    let s = unsafe { &mut *self.state.0.get() };
    if s.is_none() { let n = self.input.output_partitioning().partition_count(); let mut v = Vec::new(); let mut i = 0; while i < n { v.push(self.input.execute(i, Arc::clone(&c))?); i += 1; } let mut q = Vec::new(); let mut i = 0; while i < outs { q.push((std::collections::VecDeque::new(), false)); i += 1; }
        *s = Some(Arc::new(std::cell::UnsafeCell::new(stream::RepState { v, q, hash: matches!(self.part, Partitioning::Hash(..)), rr: 0, w: Vec::new() })).into()); }
    let st = s.as_ref().unwrap().clone(); let q = &mut unsafe { &mut *st.0.get() }.q[p]; if q.1 { return internal_err!("partition executed twice"); } q.1 = true;
    Ok(Box::pin(stream::RepStream { schema: self.schema(), p, st }))
} }
#[derive(Default)] pub struct RepCell(std::cell::UnsafeCell<Option<stream::RepShared>>); unsafe impl Send for RepCell {} unsafe impl Sync for RepCell {}
impl fmt::Debug for RepCell { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("RepCell") } }
#[derive(Debug, Clone)] pub struct EmptyExec { props: Arc<PlanProperties> }
impl EmptyExec { pub fn new(s: SchemaRef) -> Self { Self { props: props(s, unk(1)) } } pub fn with_partitions(self, n: usize) -> Self { Self { props: props(self.schema(), unk(n)) } } }
node!(EmptyExec, s, vec![], (m, c) { let _ = c; Ok(m) }, {});
#[derive(Debug, Clone)] pub struct DataSourceExec { props: Arc<PlanProperties>, src: Arc<dyn crate::datasource::DataSource> }
impl DataSourceExec { pub fn new(src: Arc<dyn crate::datasource::DataSource>) -> Self { let n = src.partitions(); Self { props: props(Arc::new(Schema::empty()), unk(n)), src } } pub fn from_data_source(s: impl crate::datasource::DataSource) -> Arc<Self> { Arc::new(Self::new(Arc::new(s))) } pub fn data_source(&self) -> &Arc<dyn crate::datasource::DataSource> { &self.src } }
node!(DataSourceExec, s, vec![], (m, c) { let _ = c; Ok(m) }, {});
#[derive(Debug, Clone)] pub struct CoalescePartitionsExec { input: P, props: Arc<PlanProperties>, fetch: Option<usize> }
impl CoalescePartitionsExec { pub fn new(input: P) -> Self { Self { props: props(input.schema(), unk(1)), input, fetch: None } } pub fn with_fetch(mut self, f: Option<usize>) -> Self { self.fetch = f; self } pub fn input(&self) -> &P { &self.input } }
node!(CoalescePartitionsExec, s, vec![&s.input], (m, c) Ok(Arc::new(CoalescePartitionsExec::new(one(c)?).with_fetch(m.fetch))), {
    fn fetch(&self) -> Option<usize> { self.fetch } fn with_fetch(&self, l: Option<usize>) -> Option<P> { Some(Arc::new(CoalescePartitionsExec { fetch: l, ..self.clone() })) } fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::Equal } fn supports_limit_pushdown(&self) -> bool { true }
});
#[derive(Debug, Clone)] pub struct SortPreservingMergeExec { input: P, props: Arc<PlanProperties>, fetch: Option<usize>, expr: LexOrdering }
impl SortPreservingMergeExec { pub fn new(expr: LexOrdering, input: P) -> Self { Self { props: props(input.schema(), unk(1)), input, fetch: None, expr } } pub fn with_fetch(mut self, f: Option<usize>) -> Self { self.fetch = f; self } pub fn input(&self) -> &P { &self.input } pub fn expr(&self) -> &LexOrdering { &self.expr } }
node!(SortPreservingMergeExec, s, vec![&s.input], (m, c) Ok(Arc::new(SortPreservingMergeExec::new(m.expr.clone(), one(c)?).with_fetch(m.fetch))), {
    fn fetch(&self) -> Option<usize> { self.fetch } fn with_fetch(&self, l: Option<usize>) -> Option<P> { Some(Arc::new(SortPreservingMergeExec { fetch: l, ..self.clone() })) } fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::Equal } fn supports_limit_pushdown(&self) -> bool { true }
});
#[derive(Debug, Clone)] pub struct SortExec { input: P, props: Arc<PlanProperties>, fetch: Option<usize>, expr: LexOrdering, pp: bool }
impl SortExec { pub fn new(expr: LexOrdering, input: P) -> Self { Self { props: props(input.schema(), unk(1)), input, fetch: None, expr, pp: false } } pub fn with_fetch(&self, f: Option<usize>) -> Self { Self { fetch: f, ..self.clone() } } pub fn with_preserve_partitioning(mut self, p: bool) -> Self { self.pp = p; self.props = if p { like(&self.input) } else { props(self.input.schema(), unk(1)) }; self } pub fn preserve_partitioning(&self) -> bool { self.pp } pub fn input(&self) -> &P { &self.input } pub fn expr(&self) -> &LexOrdering { &self.expr } pub fn fetch(&self) -> Option<usize> { self.fetch } }
node!(SortExec, s, vec![&s.input], (m, c) { let mut n = SortExec::new(m.expr.clone(), one(c)?).with_preserve_partitioning(m.pp); n.fetch = m.fetch; Ok(Arc::new(n)) }, {
    fn fetch(&self) -> Option<usize> { self.fetch } fn with_fetch(&self, l: Option<usize>) -> Option<P> { Some(Arc::new(SortExec { fetch: l, ..self.clone() })) } fn cardinality_effect(&self) -> CardinalityEffect { if self.fetch.is_none() { CardinalityEffect::Equal } else { CardinalityEffect::LowerEqual } }
 fn required_input_distribution(&self) -> Vec<Distribution> { vec![if self.pp { Distribution::UnspecifiedDistribution } else { Distribution::SinglePartition }] } });
#[derive(Debug, Clone)] pub struct LocalLimitExec { input: P, props: Arc<PlanProperties>, n: usize }
impl LocalLimitExec { pub fn new(input: P, n: usize) -> Self { Self { props: like(&input), input, n } } pub fn input(&self) -> &P { &self.input } pub fn fetch(&self) -> usize { self.n } }
node!(LocalLimitExec, s, vec![&s.input], (m, c) Ok(Arc::new(LocalLimitExec::new(one(c)?, m.n))), { fn fetch(&self) -> Option<usize> { Some(self.n) } fn supports_limit_pushdown(&self) -> bool { true } fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::LowerEqual } });
#[derive(Debug, Clone)] pub struct GlobalLimitExec { input: P, props: Arc<PlanProperties>, skip: usize, n: Option<usize> }
impl GlobalLimitExec { pub fn new(input: P, skip: usize, n: Option<usize>) -> Self { Self { props: props(input.schema(), unk(1)), input, skip, n } } pub fn input(&self) -> &P { &self.input } pub fn fetch(&self) -> Option<usize> { self.n } pub fn skip(&self) -> usize { self.skip } }
node!(GlobalLimitExec, s, vec![&s.input], (m, c) Ok(Arc::new(GlobalLimitExec::new(one(c)?, m.skip, m.n))), { fn fetch(&self) -> Option<usize> { self.n } fn supports_limit_pushdown(&self) -> bool { true } fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::LowerEqual }  fn required_input_distribution(&self) -> Vec<Distribution> { vec![Distribution::SinglePartition] } });
#[derive(Debug, Clone)] pub struct FilterExec { input: P, props: Arc<PlanProperties>, predicate: Arc<dyn PhysicalExpr>, fetch: Option<usize> }
impl FilterExec { pub fn try_new(predicate: Arc<dyn PhysicalExpr>, input: P) -> Result<Self> { Ok(Self { props: like(&input), input, predicate, fetch: None }) } pub fn predicate(&self) -> &Arc<dyn PhysicalExpr> { &self.predicate } pub fn input(&self) -> &P { &self.input } }
node!(FilterExec, s, vec![&s.input], (m, c) { let input = one(c)?; Ok(Arc::new(FilterExec { props: like(&input), input, predicate: Arc::clone(&m.predicate), fetch: m.fetch })) }, { fn fetch(&self) -> Option<usize> { self.fetch } fn with_fetch(&self, l: Option<usize>) -> Option<P> { Some(Arc::new(FilterExec { fetch: l, ..self.clone() })) } fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::LowerEqual } });
#[derive(Debug, Clone)] pub struct ProjectionExpr { pub expr: Arc<dyn PhysicalExpr>, pub alias: String }
#[derive(Debug, Clone)] pub struct ProjectionExec { input: P, props: Arc<PlanProperties>, expr: Vec<ProjectionExpr>, /** Exchanges the columns of both sides of a join. */ swaps: bool }
impl ProjectionExec { pub fn try_new<I: IntoIterator<Item = E>, E: Into<ProjectionExpr>>(e: I, input: P) -> Result<Self> { Ok(Self { props: like(&input), input, expr: e.into_iter().map(Into::into).collect(), swaps: false }) } pub fn expr(&self) -> &[ProjectionExpr] { &self.expr } pub fn input(&self) -> &P { &self.input } }
node!(ProjectionExec, s, vec![&s.input], (m, c) { let input = one(c)?; Ok(Arc::new(ProjectionExec { props: like(&input), input, expr: m.expr.clone(), swaps: m.swaps })) }, { fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::Equal } fn supports_limit_pushdown(&self) -> bool { true } });
#[derive(Debug)] pub struct RepartitionExec { input: P, props: Arc<PlanProperties>, part: Partitioning, state: RepCell }
impl Clone for RepartitionExec { fn clone(&self) -> Self { Self { input: Arc::clone(&self.input), props: Arc::clone(&self.props), part: self.part.clone(), state: Default::default() } } }
impl RepartitionExec { pub fn try_new(input: P, part: Partitioning) -> Result<Self> { Ok(Self { props: props(input.schema(), part.clone()), input, part, state: Default::default() }) } pub fn partitioning(&self) -> &Partitioning { &self.part } pub fn input(&self) -> &P { &self.input } pub fn preserve_order(&self) -> bool { false } pub fn with_preserve_order(self) -> Self { self } }
node!(RepartitionExec, s, vec![&s.input], (m, c) Ok(Arc::new(RepartitionExec::try_new(one(c)?, m.part.clone())?)), { fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::Equal }
    fn repartitioned(&self, n: usize, _c: &ConfigOptions) -> Result<Option<P>> { Ok(Some(Arc::new(RepartitionExec::try_new(Arc::clone(&self.input), match &self.part { Partitioning::Hash(e, _) => Partitioning::Hash(e.clone(), n), Partitioning::RoundRobinBatch(_) => Partitioning::RoundRobinBatch(n), Partitioning::UnknownPartitioning(_) => Partitioning::UnknownPartitioning(n), Partitioning::Range(_) => return Ok(None) })?))) } });
#[derive(Debug, Clone)] pub struct UnionExec { inputs: Vec<P>, props: Arc<PlanProperties> }
impl UnionExec { pub fn try_new(inputs: Vec<P>) -> Result<P> { if inputs.is_empty() { return internal_err!("UnionExec requires at least one input"); } if inputs.len() == 1 { return Ok(inputs.into_iter().next().unwrap()); } Ok(Arc::new(Self::mk(inputs))) }
    fn mk(inputs: Vec<P>) -> Self { let mut n = 0; let mut i = 0; while i < inputs.len() { n += inputs[i].output_partitioning().partition_count(); i += 1; } Self { props: props(inputs[0].schema(), unk(n)), inputs } } pub fn inputs(&self) -> &Vec<P> { &self.inputs } }
node!(UnionExec, s, s.inputs.iter().collect(), (m, c) { let _ = m; UnionExec::try_new(c) }, { fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::Equal } fn supports_limit_pushdown(&self) -> bool { true } });
#[derive(Debug, Clone)] pub struct InterleaveExec { inputs: Vec<P>, props: Arc<PlanProperties> }
impl InterleaveExec { pub fn try_new(inputs: Vec<P>) -> Result<Self> { Ok(Self { props: like(&inputs[0]), inputs }) } }
node!(InterleaveExec, s, s.inputs.iter().collect(), (m, c) { let _ = m; Ok(Arc::new(InterleaveExec::try_new(c)?)) }, {});
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum PartitionMode { Partitioned, CollectLeft, Auto }
#[derive(Debug, Clone)] pub struct ColumnIndex { pub index: usize, pub side: JoinSide }
#[derive(Debug, Clone)] pub struct JoinFilter { pub expression: Arc<dyn PhysicalExpr>, pub column_indices: Vec<ColumnIndex> }
impl JoinFilter { pub fn expression(&self) -> &Arc<dyn PhysicalExpr> { &self.expression } pub fn column_indices(&self) -> &[ColumnIndex] { &self.column_indices } }
pub type JoinOn = Vec<(Arc<dyn PhysicalExpr>, Arc<dyn PhysicalExpr>)>;
/// Output partitions of a join: the probe side, or the hash partitions of both sides.
#[derive(Debug, Clone)] pub struct HashJoinExec { pub left: P, pub right: P, pub on: JoinOn, pub filter: Option<JoinFilter>, pub join_type: JoinType, pub mode: PartitionMode, pub null_aware: bool, pub fetch: Option<usize>, props: Arc<PlanProperties>, cell: run::JoinCell }
impl HashJoinExec {
    pub fn model(left: P, right: P, on: JoinOn, join_type: JoinType, mode: PartitionMode, null_aware: bool) -> Self { let props = props(right.schema(), join_part(&right, mode)); Self { left, right, on, filter: None, join_type, mode, null_aware, fetch: None, props, cell: Default::default() } }
    pub fn left(&self) -> &P { &self.left } pub fn right(&self) -> &P { &self.right } pub fn on(&self) -> &[(Arc<dyn PhysicalExpr>, Arc<dyn PhysicalExpr>)] { &self.on } pub fn filter(&self) -> Option<&JoinFilter> { self.filter.as_ref() } pub fn join_type(&self) -> &JoinType { &self.join_type } pub fn partition_mode(&self) -> &PartitionMode { &self.mode }
    pub fn builder(&self) -> HashJoinExecBuilder { HashJoinExecBuilder(self.clone()) }
}
pub struct HashJoinExecBuilder(HashJoinExec);
impl HashJoinExecBuilder { pub fn with_partition_mode(mut self, m: PartitionMode) -> Self { self.0.mode = m; self } pub fn with_new_children(mut self, c: Vec<P>) -> Result<Self> { let (l, r) = two(c)?; self.0.left = l; self.0.right = r; Ok(self) } pub fn build(self) -> Result<HashJoinExec> { let mut h = self.0; h.props = props(h.right.schema(), unk(h.right.output_partitioning().partition_count())); Ok(h) } }
node!(HashJoinExec, s, vec![&s.left, &s.right], (m, c) { Ok(Arc::new(m.builder().with_new_children(c)?.build()?)) }, { fn fetch(&self) -> Option<usize> { self.fetch }  fn required_input_distribution(&self) -> Vec<Distribution> { match self.mode { PartitionMode::Partitioned => on_keys(&self.on), PartitionMode::CollectLeft => vec![Distribution::SinglePartition, Distribution::UnspecifiedDistribution], PartitionMode::Auto => vec![Distribution::UnspecifiedDistribution, Distribution::UnspecifiedDistribution] } } });
#[derive(Debug, Clone)] pub struct NestedLoopJoinExec { left: P, right: P, filter: Option<JoinFilter>, join_type: JoinType, props: Arc<PlanProperties>, cell: run::JoinCell }
impl NestedLoopJoinExec { pub fn model(left: P, right: P, filter: Option<JoinFilter>, join_type: JoinType) -> Self { let props = props(right.schema(), unk(right.output_partitioning().partition_count())); Self { left, right, filter, join_type, props, cell: Default::default() } }
    pub fn left(&self) -> &P { &self.left } pub fn right(&self) -> &P { &self.right } pub fn filter(&self) -> Option<&JoinFilter> { self.filter.as_ref() } pub fn join_type(&self) -> &JoinType { &self.join_type }
    /// Swapped join; joins whose output has columns of both sides get a reordering projection.
    pub fn swap_inputs(&self) -> Result<P> { let n = Self::model(Arc::clone(&self.right), Arc::clone(&self.left), self.filter.clone(), self.join_type.swap()); if matches!(self.join_type, JoinType::LeftSemi | JoinType::RightSemi | JoinType::LeftAnti | JoinType::RightAnti | JoinType::LeftMark | JoinType::RightMark) { Ok(Arc::new(n)) } else { let mut q = ProjectionExec::try_new(Vec::<ProjectionExpr>::new(), Arc::new(n))?; q.swaps = true; Ok(Arc::new(q)) } } }
node!(NestedLoopJoinExec, s, vec![&s.left, &s.right], (m, c) { let (l, r) = two(c)?; Ok(Arc::new(NestedLoopJoinExec::model(l, r, m.filter.clone(), m.join_type))) }, { fn required_input_distribution(&self) -> Vec<Distribution> { vec![Distribution::SinglePartition, Distribution::UnspecifiedDistribution] } });
#[derive(Debug, Clone)] pub struct CrossJoinExec { left: P, right: P, props: Arc<PlanProperties>, cell: run::JoinCell }
impl CrossJoinExec { pub fn new(left: P, right: P) -> Self { let props = props(right.schema(), unk(right.output_partitioning().partition_count())); Self { left, right, props, cell: Default::default() } } pub fn left(&self) -> &P { &self.left } pub fn right(&self) -> &P { &self.right } }
node!(CrossJoinExec, s, vec![&s.left, &s.right], (m, c) { let _ = m; let (l, r) = two(c)?; Ok(Arc::new(CrossJoinExec::new(l, r))) }, { fn required_input_distribution(&self) -> Vec<Distribution> { vec![Distribution::SinglePartition, Distribution::UnspecifiedDistribution] } });
macro_rules! join2 { ($t:ident) => {
    #[derive(Debug, Clone)] pub struct $t { pub left: P, pub right: P, pub on: JoinOn, pub filter: Option<JoinFilter>, pub join_type: JoinType, props: Arc<PlanProperties> }
    impl $t { pub fn model(left: P, right: P, on: JoinOn, join_type: JoinType) -> Self { let props = props(right.schema(), unk(right.output_partitioning().partition_count())); Self { left, right, on, filter: None, join_type, props } } pub fn left(&self) -> &P { &self.left } pub fn right(&self) -> &P { &self.right } pub fn on(&self) -> &[(Arc<dyn PhysicalExpr>, Arc<dyn PhysicalExpr>)] { &self.on } pub fn join_type(&self) -> JoinType { self.join_type } }
    node!($t, s, vec![&s.left, &s.right], (m, c) { let (l, r) = two(c)?; Ok(Arc::new($t::model(l, r, m.on.clone(), m.join_type))) }, { fn required_input_distribution(&self) -> Vec<Distribution> { on_keys(&self.on) } });
} }
join2!(SortMergeJoinExec); join2!(SymmetricHashJoinExec);
impl SortMergeJoinExec { pub fn filter(&self) -> &Option<JoinFilter> { &self.filter } }
impl SymmetricHashJoinExec { pub fn filter(&self) -> Option<&JoinFilter> { self.filter.as_ref() } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum AggregateMode { Partial, PartialReduce, Final, FinalPartitioned, Single, SinglePartitioned }
#[derive(Debug, Clone, Default)] pub struct PhysicalGroupBy { expr: Vec<(Arc<dyn PhysicalExpr>, String)>, null_expr: Vec<(Arc<dyn PhysicalExpr>, String)>, groups: Vec<Vec<bool>>, gs: bool }
impl PhysicalGroupBy { pub fn is_true_no_grouping(&self) -> bool { self.expr.is_empty() && !self.gs } pub fn new(expr: Vec<(Arc<dyn PhysicalExpr>, String)>, null_expr: Vec<(Arc<dyn PhysicalExpr>, String)>, groups: Vec<Vec<bool>>, gs: bool) -> Self { Self { expr, null_expr, groups, gs } } pub fn expr(&self) -> &[(Arc<dyn PhysicalExpr>, String)] { &self.expr } pub fn null_expr(&self) -> &[(Arc<dyn PhysicalExpr>, String)] { &self.null_expr } pub fn groups(&self) -> &[Vec<bool>] { &self.groups } pub fn has_grouping_set(&self) -> bool { self.gs } pub fn is_empty(&self) -> bool { self.expr.is_empty() } pub fn is_single(&self) -> bool { !self.gs }
    pub fn output_exprs(&self) -> Vec<Arc<dyn PhysicalExpr>> { let n = self.expr.len() + self.gs as usize; let mut v: Vec<Arc<dyn PhysicalExpr>> = Vec::new(); while v.len() < n { let i = v.len(); v.push(Arc::new(crate::physical_expr::expressions::Column::new(if i < self.expr.len() { self.expr[i].1.as_str() } else { "__grouping_id" }, i))); } v }
    pub fn input_exprs(&self) -> Vec<Arc<dyn PhysicalExpr>> { self.expr.iter().map(|e| Arc::clone(&e.0)).collect() }
    pub fn as_final(&self) -> PhysicalGroupBy { let mut expr = Vec::new(); let mut i = 0; for e in self.output_exprs() { expr.push((e, if i < self.expr.len() { self.expr[i].1.clone() } else { String::from("__grouping_id") })); i += 1; } let groups = if expr.is_empty() { vec![] } else { vec![vec![false; expr.len()]] }; Self { expr, null_expr: vec![], groups, gs: false } }
    /// Grouping sets, as which of them keep the key.
    pub fn sets(&self) -> Option<Vec<bool>> { if !self.gs { return None; } Some(self.groups.iter().map(|g| !g.iter().all(|x| *x)).collect()) } }
#[derive(Debug, Clone)] pub struct AggregateFunctionExpr;
#[derive(Debug, Clone)] pub struct AggregateExec { mode: AggregateMode, group_by: Arc<PhysicalGroupBy>, aggr: Vec<Arc<AggregateFunctionExpr>>, filter: Vec<Option<Arc<dyn PhysicalExpr>>>, pub input: P, pub input_schema: SchemaRef, props: Arc<PlanProperties> }
impl AggregateExec { pub fn try_new(mode: AggregateMode, group_by: impl Into<Arc<PhysicalGroupBy>>, aggr: Vec<Arc<AggregateFunctionExpr>>, filter: Vec<Option<Arc<dyn PhysicalExpr>>>, input: P, input_schema: SchemaRef) -> Result<Self> { Ok(Self { mode, group_by: group_by.into(), aggr, filter, props: like(&input), input, input_schema }) }
    pub fn mode(&self) -> &AggregateMode { &self.mode } pub fn group_expr(&self) -> &PhysicalGroupBy { &self.group_by } pub fn aggr_expr(&self) -> &[Arc<AggregateFunctionExpr>] { &self.aggr } pub fn filter_expr(&self) -> &[Option<Arc<dyn PhysicalExpr>>] { &self.filter } pub fn input(&self) -> &P { &self.input } pub fn input_schema(&self) -> SchemaRef { Arc::clone(&self.input_schema) } }
node!(AggregateExec, s, vec![&s.input], (m, c) { let input = one(c)?; Ok(Arc::new(AggregateExec { props: like(&input), input, ..(*m).clone() })) }, { fn cardinality_effect(&self) -> CardinalityEffect { CardinalityEffect::LowerEqual }  fn required_input_distribution(&self) -> Vec<Distribution> { vec![match self.mode { AggregateMode::Partial | AggregateMode::PartialReduce => Distribution::UnspecifiedDistribution, AggregateMode::FinalPartitioned | AggregateMode::SinglePartitioned => Distribution::KeyPartitioned(self.group_by.expr.iter().map(|e| Arc::clone(&e.0)).collect()), _ => Distribution::SinglePartition }] } });
macro_rules! win { ($t:ident) => { #[derive(Debug, Clone)] pub struct $t { input: P, keys: Vec<Arc<dyn PhysicalExpr>>, props: Arc<PlanProperties> } impl $t { pub fn model(input: P, keys: Vec<Arc<dyn PhysicalExpr>>) -> Self { Self { props: like(&input), input, keys } } pub fn partition_keys(&self) -> Vec<Arc<dyn PhysicalExpr>> { self.keys.clone() } pub fn input(&self) -> &P { &self.input } } node!($t, s, vec![&s.input], (m, c) { Ok(Arc::new($t::model(one(c)?, m.keys.clone()))) }, { fn required_input_distribution(&self) -> Vec<Distribution> { vec![if self.keys.is_empty() { Distribution::SinglePartition } else { Distribution::KeyPartitioned(self.keys.clone()) }] } }); } }
win!(WindowAggExec); win!(BoundedWindowAggExec);
#[derive(Debug, Clone)] pub struct AnalyzeExec { input: P, v: bool, props: Arc<PlanProperties> }
impl AnalyzeExec { pub fn verbose(&self) -> bool { self.v } pub fn input(&self) -> &P { &self.input } }
node!(AnalyzeExec, s, vec![&s.input], (m, c) { let input = one(c)?; Ok(Arc::new(AnalyzeExec { v: m.v, props: like(&input), input })) }, {});
