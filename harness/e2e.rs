//! C05: a distributed query returns what the single-node plan returns. The session, the planner, the
//! coordinator, the workers and their connections are the real ones; workers are reached in process.
use super::util::*;
use crate::*;
use crate::events::*;
use datafusion::arrow::array::RecordBatch;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{JoinType, Result};
use datafusion::execution::config::SessionConfig;
use datafusion::execution::context::QueryPlanner;
use datafusion::execution::{SendableRecordBatchStream, Session, SessionState, SessionStateBuilder, TaskContext};
use datafusion::logical_expr::LogicalPlan;
use datafusion::physical_expr::{LexOrdering, Partitioning, PhysicalExpr, expressions::Column};
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode, SortMergeJoinExec, SymmetricHashJoinExec};
use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::windows::{BoundedWindowAggExec, WindowAggExec};
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use datafusion::common::stats::Precision; use datafusion::common::Statistics;
use datafusion::physical_plan::metrics::{Count, ExecutionPlanMetricsSet, MetricBuilder, MetricsSet};
use datafusion::physical_plan::statistics::StatisticsArgs;
use futures::Stream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use url::Url;

pub type P = Arc<dyn ExecutionPlan>;
pub type Table = Vec<Vec<u64>>;
/// Leaf over the rows of a table; a row is `id << 8 | key`.
#[derive(Debug, Clone)] pub struct Data { pub parts: Table, pub props: Arc<PlanProperties>, pub wait: bool, pub fail: bool, pub pause: bool, /** Says nothing after its rows. */ pub hangs: bool, pub wide: bool, pub stats: Option<usize>, pub counts: Option<ExecutionPlanMetricsSet> }
impl Data { pub fn new(parts: Table) -> Self { let props = EmptyExec::new(schema()).with_partitions(parts.len()).properties().clone(); Data { parts, props, wait: false, fail: false, pause: false, hangs: false, wide: false, stats: None, counts: None } } }
/// Leaf of one column that counts the rows it returns and estimates how many there are.
pub fn counting(t: &Table, stats: Option<usize>) -> Data { let s = Arc::new(datafusion::arrow::datatypes::Schema::new(vec![datafusion::arrow::datatypes::Field::new("v", datafusion::arrow::datatypes::DataType::UInt64, true)])); Data { props: EmptyExec::new(s).with_partitions(t.len()).properties().clone(), stats, counts: Some(ExecutionPlanMetricsSet::new()), ..Data::new(t.clone()) } }
impl DisplayAs for Data { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Data") } }
pub static mut DATA_ALIVE: usize = 0;
impl ExecutionPlan for Data {
    fn name(&self) -> &str { "Data" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&P> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<P>) -> Result<P> { Ok(self) }
    fn execute(&self, p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if p >= self.parts.len() { return datafusion::internal_err!("no such partition"); }
        unsafe { DATA_ALIVE += 1; }
        Ok(Box::pin(DataStream { schema: self.schema(), rows: self.parts[p].clone(), i: 0, waited: !self.wait, pause: self.pause, hangs: self.hangs, fail: self.fail, count: self.counts.as_ref().map(|m| MetricBuilder::new(m).output_rows(p)) }))
    }
    fn metrics(&self) -> Option<MetricsSet> { self.counts.as_ref().map(|m| m.clone_inner()) }
    fn statistics_from_inputs(&self, _: &[Arc<Statistics>], _: &StatisticsArgs) -> Result<Arc<Statistics>> { if unsafe { datafusion::physical_plan::ANY_STATISTICS } { return Ok(Arc::new(datafusion::physical_plan::any_statistics(&self.schema()))); } let mut s = Statistics::new_unknown(&self.schema()); if let Some(n) = self.stats { s.num_rows = Precision::Inexact(n); } Ok(Arc::new(s)) }
}
struct DataStream { schema: datafusion::arrow::datatypes::SchemaRef, rows: Vec<u64>, i: usize, waited: bool, pause: bool, hangs: bool, fail: bool, count: Option<Count> }
impl Drop for DataStream { fn drop(&mut self) { unsafe { DATA_ALIVE -= 1; } } }
impl Stream for DataStream { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    if !self.waited { self.waited = true; cx.waker().wake_by_ref(); return Poll::Pending; }
    if self.pause && self.i == 1 { self.pause = false; cx.waker().wake_by_ref(); return Poll::Pending; }
    let Some(t) = self.rows.get(self.i).copied() else { if self.fail { self.fail = false; return Poll::Ready(Some(datafusion::exec_err!("leaf failed"))); } return if self.hangs { Poll::Pending } else { Poll::Ready(None) } };
    self.i += 1; if let Some(c) = &self.count { c.add(1); } Poll::Ready(Some(Ok(RecordBatch::model(Arc::clone(&self.schema), 1, 8, t))))
} }
impl datafusion::execution::RecordBatchStream for DataStream { fn schema(&self) -> datafusion::arrow::datatypes::SchemaRef { Arc::clone(&self.schema) } }
/// Leaf spread over `n` tasks: task `t` reads the rows of each partition whose position is `t` mod `n`.
pub fn scale(ev: ScaleUpLeafNodeEvent<'_>) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    if let Some(f) = super::feeds::scale(&ev) { return Some(Ok(f)); }
    let d = ev.plan.downcast_ref::<Data>()?;
    if d.wide && ev.task_count > 1 { let n = d.parts.len().div_ceil(ev.task_count); let mut v: Vec<P> = Vec::new(); let mut t = 0; while t < ev.task_count { let mut parts = Vec::new(); let mut p = 0; while p < n { parts.push(if t * n + p < d.parts.len() { d.parts[t * n + p].clone() } else { vec![] }); p += 1; } v.push(Arc::new(Data { wait: d.wait, fail: d.fail, ..Data::new(parts) })); t += 1; }
        return Some(DistributedLeafExec::try_new(Arc::clone(ev.plan), v).map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l)))); }
    let mut v: Vec<P> = Vec::new(); let mut t = 0;
    while t < ev.task_count {
        let mut parts = Vec::new(); let mut p = 0;
        while p < d.parts.len() { let mut rows = Vec::new(); let mut i = 0; while i < d.parts[p].len() { if i % ev.task_count == t { rows.push(d.parts[p][i]); } i += 1; } parts.push(rows); p += 1; }
        v.push(Arc::new(Data { parts, counts: d.counts.as_ref().map(|_| ExecutionPlanMetricsSet::new()), ..d.clone() })); t += 1;
    }
    Some(DistributedLeafExec::try_new(Arc::clone(ev.plan), v).map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l))))
}
#[derive(Debug)] pub struct FixedPlanner(pub P);
#[async_trait::async_trait]
impl QueryPlanner for FixedPlanner { async fn create_physical_plan(&self, _l: &LogicalPlan, _s: &dyn Session) -> Result<P> { Ok(Arc::clone(&self.0)) } }
pub struct Urls(pub usize);
impl WorkerResolver for Urls { fn get_urls(&self) -> Result<Vec<Url>> { let mut v = Vec::new(); let mut i = 0; while i < self.0 { v.push(Url::n(i)); i += 1; } Ok(v) } }
/// What a session is set up with.
#[derive(Clone, Copy)] pub struct Cfg { pub workers: usize, pub leaf_tasks: usize, pub broadcast: bool, pub isolate: bool, pub partial_reduce: bool, pub dynamic: bool, pub metrics: bool, pub bytes_per_partition: usize, pub local: bool, pub max_tasks: usize, pub routed: bool, /** Task `i` of a stage on worker `i`, instead of starting from any of them. */ pub placed: bool, pub wire: bool, pub feeds: bool }
impl Default for Cfg { fn default() -> Self { Cfg { workers: 2, leaf_tasks: 2, broadcast: true, isolate: true, partial_reduce: false, dynamic: false, metrics: false, bytes_per_partition: 1 << 20, local: false, max_tasks: 0, routed: false, placed: false, wire: false, feeds: false } } }
/// Sends each task to any worker.
pub fn anywhere(ev: RouteTasksEvent<'_>) -> Option<Result<RouteTasksEventResponse>> { let mut v = Vec::new(); let mut i = 0; while i < ev.task_count { v.push(Url::n(nd::pick(0, workers().len() - 1))); i += 1; } Some(Ok(RouteTasksEventResponse::new(v))) }
fn in_turn(ev: RouteTasksEvent<'_>) -> Option<Result<RouteTasksEventResponse>> { let mut v = Vec::new(); let mut i = 0; while i < ev.task_count { v.push(Url::n(i % workers().len())); i += 1; } Some(Ok(RouteTasksEventResponse::new(v))) }
/// What else a session is set up with.
pub static mut SETUP: Option<fn(&mut SessionConfig)> = None;
pub fn session(c: Cfg, plan: P) -> SessionState {
    let mut cfg = SessionConfig::new().with_target_partitions(2);
    crate::protocol::set_distributed_channel_resolver(&mut cfg, ClusterResolver);
    cfg.set_distributed_worker_resolver(Urls(c.workers));
    cfg.set_distributed_desired_task_count_handler(c.leaf_tasks);
    cfg.set_distributed_scale_up_leaf_node_handler(scale);
    cfg.set_distributed_broadcast_joins(c.broadcast).unwrap();
    cfg.set_distributed_children_isolator_unions(c.isolate).unwrap();
    cfg.set_distributed_partial_reduce(c.partial_reduce).unwrap();
    cfg.set_distributed_dynamic_task_count(c.dynamic).unwrap();
    cfg.set_distributed_dynamic_bytes_per_partition(c.bytes_per_partition).unwrap();
    cfg.set_distributed_metrics_collection(c.metrics).unwrap();
    while workers().len() < c.workers { workers().push(Worker::from_session_builder(InCluster)); }
    unsafe { ENCODE = c.wire; } cfg.set_distributed_user_codec(Leaves);
    if c.feeds { super::feeds::register(&mut cfg); }
    if c.local { cfg.set_distributed_local_worker_context(workers()[0].to_local_worker_context(Url::n(0))); }
    if c.max_tasks > 0 { cfg.set_distributed_max_tasks_per_stage(c.max_tasks).unwrap(); }
    if c.routed { cfg.set_distributed_route_tasks_handler(anywhere); }
    if c.placed { cfg.set_distributed_route_tasks_handler(in_turn); }
    if let Some(f) = unsafe { SETUP } { f(&mut cfg); }
    SessionStateBuilder::new().with_config(cfg).with_query_planner(Arc::new(FixedPlanner(plan))).with_distributed_planner().build()
}
/// Worker sessions that reach the other workers in process.
pub struct InCluster;
#[async_trait::async_trait]
impl WorkerSessionBuilder for InCluster { async fn build_session_state(&self, ctx: WorkerQueryContext) -> Result<SessionState> {
    let mut b = ctx.builder; let cfg = b.config().get_or_insert_default(); crate::protocol::set_distributed_channel_resolver(cfg, ClusterResolver); cfg.set_distributed_user_codec(Leaves); Ok(b.build())
} }
/// The user's codec, for the leaves.
#[derive(Debug)] pub struct Leaves;
static mut LEAVES: Vec<Data> = Vec::new();
impl datafusion_proto::physical_plan::PhysicalExtensionCodec for Leaves {
    fn try_decode(&self, b: &[u8], i: &[P], _c: &TaskContext, _: &dyn datafusion_proto::physical_plan::PhysicalProtoConverterExtension) -> Result<P> { if b.len() == 1 && i.len() == 1 { return Ok(super::metering::decode(b, i)); } if b.len() > 2 { return super::feeds::decode(b); } if b.len() != 2 || i.len() > 0 { return datafusion::internal_err!("not a leaf"); } let d = unsafe { &(&*std::ptr::addr_of!(LEAVES))[b[0] as usize | (b[1] as usize) << 8] }; Ok(Arc::new(Data { counts: d.counts.as_ref().map(|_| ExecutionPlanMetricsSet::new()), ..d.clone() })) }
    fn try_encode(&self, n: P, b: &mut Vec<u8>, _: &dyn datafusion_proto::physical_plan::PhysicalProtoConverterExtension) -> Result<()> { if super::feeds::encode(&n, b) || super::metering::encode(&n, b) { return Ok(()); } let Some(d) = n.downcast_ref::<Data>() else { return datafusion::internal_err!("not a leaf") }; let v = unsafe { &mut *std::ptr::addr_of_mut!(LEAVES) }; v.push(d.clone()); let k = v.len() - 1; b.push(k as u8); b.push((k >> 8) as u8); Ok(()) }
}

pub fn plan(s: &SessionState) -> Result<P> { rt::block_on(s.query_planner().create_physical_plan(&LogicalPlan::Other, s)) }
/// How a query is driven: the order in which woken tasks run departs `dev` times at most from the
/// round robin, each time to any task that can run; after `drop_at` steps the consumer goes away.
#[derive(Clone, Copy)] pub struct Sched { pub dev: usize, pub drop_at: usize, /** The consumer goes away when nothing can run. */ pub gives_up: bool }
impl Default for Sched { fn default() -> Self { Sched { dev: 0, drop_at: usize::MAX, gives_up: false } } }
/// Runs one task that can make progress, the consumer of the query being slot 0; `None` when there is none.
fn turn(cursor: &mut usize, dev: &mut usize) -> Option<usize> {
    let n = rt::spawned() + 1; let mut c = Vec::new();
    let mut k = 0; while k < n { let i = (*cursor + k) % n; if if i == 0 { rt::woken(0) } else { rt::ready(i - 1) } { c.push(i); } k += 1; }
    if c.is_empty() { return None; }
    let mut w = 0; if *dev > 0 && c.len() > 1 { w = nd::pick(0, c.len() - 1); if w > 0 { *dev -= 1; } }
    *cursor = c[w] + 1; Some(c[w])
}
/// Runs every partition of a plan to its end. `Ok(None)` when the consumer went away first.
pub fn drive(p: &P, ctx: Arc<TaskContext>, sc: Sched) -> Result<Option<Vec<RecordBatch>>> {
    let mut out = Vec::new(); let mut k = 0; let (mut cursor, mut dev, mut steps) = (0, sc.dev, 0);
    while k < p.output_partitioning().partition_count() {
        let mut s = p.execute(k, Arc::clone(&ctx))?; unsafe { rt::WOKEN[0] = true; }
        loop {
            if steps >= sc.drop_at { nd::cover("consumer gone early"); drop(s); return Ok(None); }
            steps += 1;
            match turn(&mut cursor, &mut dev) {
                None if sc.gives_up && !tokio::time::elapse() => { nd::cover("consumer gone early"); drop(s); return Ok(None); }
                None if sc.gives_up => {}
                None => assert!(tokio::time::elapse(), "the query never completes"),
                Some(0) => { unsafe { rt::WOKEN[0] = false; } match next(&mut s) { Poll::Ready(Some(Ok(b))) => { out.push(b); unsafe { rt::WOKEN[0] = true; } } Poll::Ready(Some(Err(e))) => { drop(s); return Err(e); } Poll::Ready(None) => break, Poll::Pending => {} } }
                Some(i) => { rt::step(i - 1); }
            }
        }
        k += 1;
    }
    Ok(Some(out))
}
pub fn collect(p: &P, ctx: Arc<TaskContext>) -> Result<Vec<RecordBatch>> { Ok(drive(p, ctx, Sched::default())?.unwrap()) }
/// Everything a finished query held is released once the tasks still scheduled have run.
pub fn released() {
    assert!(rt::settle(400), "tasks settle");
    let mut i = 0; while i < workers().len() { assert!(workers()[i].task_data_entries.entry_count() == 0, "workers keep no task of a finished query"); i += 1; }
    assert!(unsafe { DATA_ALIVE } == 0, "no leaf stream outlives its query");
}
/// A query that failed or was abandoned stops on its own, and what it leaves on the workers expires.
pub fn abandoned() {
    assert!(rt::settle(400), "tasks settle"); let mut n = 0; while tokio::time::elapse() { assert!(rt::settle(400) && n < 10, "tasks settle"); n += 1; }
    assert!(unsafe { DATA_ALIVE } == 0, "no leaf stream outlives its query");
    let mut i = 0; while i < workers().len() { workers()[i].task_data_entries.expire(); i += 1; }
    assert!(rt::settle(400), "tasks settle");
    let mut i = 0; while i < workers().len() { assert!(workers()[i].task_data_entries.entry_count() == 0, "workers keep no task of a finished query"); i += 1; }
    assert!(rt::alive() == 0, "no task outlives its query");
}
pub fn tag_list(v: &Vec<RecordBatch>) -> Vec<u64> { let mut o = Vec::new(); for b in v { if b.num_rows() > 0 { o.push(b.tag); } } o }
/// Same rows, the same number of times.
pub fn same_rows(a: &Vec<u64>, b: &Vec<u64>) -> bool { a.len() == b.len() && sub_rows(a, b) }
/// Every row of `a` is in `b`, at least as often.
pub fn sub_rows(a: &Vec<u64>, b: &Vec<u64>) -> bool {
    let mut used = vec![false; b.len()]; let mut i = 0;
    while i < a.len() { let mut j = 0; while j < b.len() && (used[j] || a[i] != b[j]) { j += 1; } if j == b.len() { return false; } used[j] = true; i += 1; }
    true
}
pub fn same_order(a: &Vec<u64>, b: &Vec<u64>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }

// Query shapes, as DataFusion plans them.
pub fn col() -> Arc<dyn PhysicalExpr> { Arc::new(Column::new("v", 0)) }
pub fn hash(p: P, n: usize) -> P { Arc::new(RepartitionExec::try_new(p, Partitioning::Hash(vec![col()], n)).unwrap()) }
pub fn agg(m: AggregateMode, grouped: bool, p: P) -> P { let g = if grouped { PhysicalGroupBy::new(vec![(col(), String::new())], vec![], vec![vec![false]], false) } else { PhysicalGroupBy::default() }; Arc::new(AggregateExec::try_new(m, g, vec![], vec![], p, schema()).unwrap()) }
pub fn one_partition(p: P) -> P { if p.output_partitioning().partition_count() > 1 { Arc::new(CoalescePartitionsExec::new(p)) } else { p } }
pub fn ordering() -> LexOrdering { LexOrdering(vec![]) }
pub fn sort(p: P, fetch: Option<usize>) -> P { let many = p.output_partitioning().partition_count() > 1; let s: P = Arc::new(SortExec::new(ordering(), p).with_preserve_partitioning(many).with_fetch(fetch)); if many { Arc::new(SortPreservingMergeExec::new(ordering(), s).with_fetch(fetch)) } else { s } }
/// `GROUP BY`: in two phases over several partitions, otherwise in one.
pub fn group(p: P, n: usize) -> P { if p.output_partitioning().partition_count() == 1 && n == 1 { return agg(AggregateMode::Single, true, p); } agg(AggregateMode::FinalPartitioned, true, hash(agg(AggregateMode::Partial, true, p), n)) }
/// `GROUP BY ROLLUP`: one set without the key and one with it, expanded by the first phase.
pub fn rollup(p: P, n: usize) -> P { let g = PhysicalGroupBy::new(vec![(col(), String::new())], vec![(col(), String::new())], vec![vec![true], vec![false]], true); let f = g.as_final();
    let many = p.output_partitioning().partition_count() > 1;
    if !many && n == 1 { return Arc::new(AggregateExec::try_new(AggregateMode::Single, g, vec![], vec![], p, schema()).unwrap()); }
    Arc::new(AggregateExec::try_new(AggregateMode::FinalPartitioned, f, vec![], vec![], hash(Arc::new(AggregateExec::try_new(AggregateMode::Partial, g, vec![], vec![], p, schema()).unwrap()), n), schema()).unwrap()) }
pub fn count(p: P) -> P { if p.output_partitioning().partition_count() == 1 { return agg(AggregateMode::Single, false, p); } agg(AggregateMode::Final, false, one_partition(agg(AggregateMode::Partial, false, p))) }
pub fn limit(p: P, skip: usize, n: Option<usize>) -> P { if p.output_partitioning().partition_count() == 1 { return Arc::new(GlobalLimitExec::new(p, skip, n)); } let p = match n { Some(n) => Arc::new(LocalLimitExec::new(p, skip + n)) as P, None => p }; Arc::new(GlobalLimitExec::new(Arc::new(CoalescePartitionsExec::new(p)), skip, n)) }
pub fn data(t: &Table) -> P { Arc::new(Data::new(t.clone())) }
pub fn join_type(k: usize) -> JoinType { use JoinType::*; [Inner, Left, Right, Full, LeftSemi, RightSemi, LeftAnti, RightAnti, LeftMark, RightMark][k] }
pub fn hash_join(l: P, r: P, t: JoinType, n: usize) -> P { Arc::new(HashJoinExec::model(hash(l, n), hash(r, n), vec![(col(), col())], t, PartitionMode::Partitioned, false)) }
pub fn collect_join(l: P, r: P, t: JoinType, null_aware: bool) -> P { Arc::new(HashJoinExec::model(one_partition(l), r, vec![(col(), col())], t, PartitionMode::CollectLeft, null_aware)) }
pub fn loop_join(l: P, r: P, t: JoinType) -> P { Arc::new(NestedLoopJoinExec::model(one_partition(l), r, None, t)) }
pub fn cross_join(l: P, r: P) -> P { Arc::new(CrossJoinExec::new(one_partition(l), r)) }

/// Table of `parts` partitions of `rows` rows each; ids from `id`, every key one of 0..=`keys`.
pub fn table(id: &mut u64, parts: usize, rows: usize, keys: u64) -> Table {
    let mut t = Vec::new(); let mut p = 0;
    while p < parts { let mut v = Vec::new(); let mut i = 0; while i < rows { *id += 1; let k = if keys == 0 { 0 } else { nd::range(0, keys as usize) as u64 }; v.push(*id << 8 | k); i += 1; } t.push(v); p += 1; }
    t
}
#[derive(Clone, Copy, PartialEq)] pub enum Cmp { Rows, Order, Limited }
/// Plans and runs `mk` distributed and on one node and compares; `all` is the plan without its limit.
pub fn check(c: Cfg, mk: impl Fn() -> P, all: Option<P>, cmp: Cmp) { check_sched(c, mk, all, cmp, Sched::default()) }
pub fn check_sched(c: Cfg, mk: impl Fn() -> P, all: Option<P>, cmp: Cmp, sc: Sched) {
    let s = session(c, mk());
    let p = match plan(&s) { Ok(p) => p, Err(_) => panic!("a query that runs on one node is planned") };
    if p.is::<DistributedExec>() { nd::cover("distributed"); assert!(p.output_partitioning().partition_count() == 1); if c.workers > 0 { assert!(p.execute(1, s.task_ctx()).is_err(), "one output partition"); } }
    let single = tag_list(&collect(&mk(), Arc::new(TaskContext::default())).expect("the single-node plan runs"));
    let got = match drive(&p, s.task_ctx(), sc) { Ok(v) => tag_list(&v.unwrap()), Err(e) => panic!("a query that runs on one node runs distributed: {e}") };
    match cmp {
        Cmp::Rows => assert!(same_rows(&got, &single), "same rows as on one node"),
        Cmp::Order => assert!(same_order(&got, &single), "same rows in the same order as on one node"),
        Cmp::Limited => { assert!(got.len() == single.len(), "as many rows as on one node"); let a = tag_list(&collect(&all.unwrap(), Arc::new(TaskContext::default())).unwrap()); assert!(sub_rows(&got, &a), "rows of the query") }
    }
    if got.len() > 0 { nd::cover("rows returned"); }
    if !c.local { check_plans(if c.max_tasks > 0 { c.max_tasks } else { c.workers }); } drop(p); drop(s); released();
}
