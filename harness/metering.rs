//! C14: the metrics of a distributed query are those of the nodes that did the work.
use super::e2e::*;
use super::util::*;
use crate::*;
use datafusion::arrow::array::RecordBatch;
use datafusion::common::Result;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::metrics::{Count, ExecutionPlanMetricsSet, MetricBuilder, MetricValue, MetricsSet};
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use futures::Stream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// Passes rows on and counts them, in its metrics and in `SEEN`.
#[derive(Debug)] struct Probe { id: usize, child: P, set: ExecutionPlanMetricsSet }
static NAMES: [&str; 6] = ["probe0", "probe1", "probe2", "probe3", "probe4", "probe5"];
static mut SEEN: [usize; 6] = [0; 6];
/// What passed in the tasks of each worker, and whether worker and task have the same number.
static mut SEEN_AT: [[usize; 6]; 4] = [[0; 6]; 4]; static mut PLACED: bool = false;
fn pr(id: usize, child: P) -> P { Arc::new(Probe { id, child, set: ExecutionPlanMetricsSet::new() }) }
impl DisplayAs for Probe { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Probe") } }
impl ExecutionPlan for Probe {
    fn name(&self) -> &str { "Probe" } fn properties(&self) -> &Arc<PlanProperties> { self.child.properties() } fn children(&self) -> Vec<&P> { vec![&self.child] }
    fn maintains_input_order(&self) -> Vec<bool> { vec![true] } fn benefits_from_input_partitioning(&self) -> Vec<bool> { vec![false] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, mut c: Vec<P>) -> Result<P> { Ok(pr(self.id, c.pop().unwrap())) }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { let w = crate::protocol::LocalWorkerContext::from_ctx(&c).map_or(0, |l| l.self_url.id); Ok(Box::pin(Counted { id: self.id, w, s: self.child.execute(p, c)?, n: MetricBuilder::new(&self.set).counter(NAMES[self.id], p) })) }
    fn metrics(&self) -> Option<MetricsSet> { Some(self.set.clone_inner()) }
}
struct Counted { id: usize, w: usize, s: SendableRecordBatchStream, n: Count }
impl Stream for Counted { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { let r = self.s.as_mut().poll_next(cx); if let Poll::Ready(Some(Ok(b))) = &r { self.n.add(b.num_rows()); unsafe { SEEN[self.id] += b.num_rows(); SEEN_AT[self.w][self.id] += b.num_rows(); } } r } }
impl datafusion::execution::RecordBatchStream for Counted { fn schema(&self) -> datafusion::arrow::datatypes::SchemaRef { self.s.schema() } }

/// Rows a node counted, and whether it reports what other nodes counted; tasks it reports from.
fn counted(m: &MetricsSet, name: &str, tasks: &mut Option<[usize; 4]>) -> usize {
    let mut n = 0;
    for x in m.iter() { match x.value() {
        MetricValue::Count { name: k, count } => { if k.starts_with("probe") { assert!(&**k == name, "a node reports its own metrics"); n += count.value(); if let Some(at) = tasks { let t = labelled(x.labels()); at[t] += count.value(); } } }
        MetricValue::OutputRows(c) => { assert!(name == "rows" || name == "boundary", "a node reports its own metrics"); n += c.value(); if let Some(at) = tasks { let t = labelled(x.labels()); at[t] += c.value(); } }
        _ => {}
    } }
    n
}
fn labelled(l: &[datafusion::physical_plan::metrics::Label]) -> usize { let mut n = 0; let mut t = 0; for x in l { if x.name() == crate::DISTRIBUTED_DATAFUSION_TASK_ID_LABEL { n += 1; t = (x.value().as_bytes()[0] - b'0') as usize; } } assert!(n == 1 && t < 4, "a metric says the task it is of"); t }
fn walk(p: &P, found: &mut [usize; 6], leaves: &mut usize, per_task: bool, full: bool) {
    let m = p.metrics().unwrap_or_default(); let t = || if per_task { Some([0; 4]) } else { None };
    if let Some(x) = p.downcast_ref::<Probe>() {
        found[x.id] += 1; let mut at = t(); let n = counted(&m, NAMES[x.id], &mut at); assert!(n == unsafe { SEEN[x.id] }, "metrics count the rows that passed"); if n > 0 { nd::cover("rows counted"); }
        let same = |at: &[usize; 4]| { let mut w = 0; while w < 4 { assert!(at[w] == unsafe { SEEN_AT[w][x.id] }, "metrics of a task are those of what passed in it"); w += 1; } nd::cover("tasks told apart"); };
        if unsafe { PLACED } { if let Some(at) = &at { same(at); } }
        if x.child.children().len() == 0 { *leaves += 1; let mut at = t(); let k = counted(&x.child.metrics().unwrap_or_default(), "rows", &mut at); if full { assert!(k == n, "leaves count the rows they return"); if unsafe { PLACED } { if let Some(at) = &at { same(at); } } } }
    } else if p.is_network_boundary() || p.is::<crate::execution_plans::ChildrenIsolatorUnionExec>() { counted(&m, "boundary", &mut None); } else if p.children().len() > 0 { counted(&m, "", &mut None); }
    if let Some(b) = p.as_network_boundary() { let s = b.input_stage(); let Stage::Local(s) = s else { panic!("stages show their plans") }; walk(&s.plan, found, leaves, per_task, full); return; }
    for c in p.children() { walk(c, found, leaves, per_task, full); }
}
fn metered(c: Cfg, p: P, probes: usize, sc: Sched, full: bool) {
    unsafe { PLACED = c.placed; } let s = session(Cfg { metrics: true, ..c }, p); let p = plan(&s).unwrap();
    match drive(&p, s.task_ctx(), sc) { Ok(_) => {} Err(e) => panic!("nothing failed: {e}") }
    if !p.is::<DistributedExec>() { return; } nd::cover("distributed");
    let per_task = nd::bool(); let f = if per_task { DistributedMetricsFormat::PerTask } else { DistributedMetricsFormat::Aggregated };
    let q = { let mut w = Box::pin(rewrite_distributed_plan_with_metrics(Arc::clone(&p), f)); let mut i = 0; loop { if let Poll::Ready(r) = rt::poll_as(63, w.as_mut()) { break r; } assert!(i < 3, "the metrics of a finished query arrive"); assert!(rt::settle(400), "tasks settle"); i += 1; } };
    let q = match q { Ok(q) => q, Err(e) => panic!("metrics are shown for the plan that ran: {e}") };
    let mut found = [0; 6]; let mut leaves = 0; walk(&q, &mut found, &mut leaves, per_task, full);
    let mut i = 0; while i < probes { assert!(found[i] == 1, "the plan shown is the plan that ran"); i += 1; }
    drop(p); drop(q); drop(s); if full { released() } else { abandoned() }
}
fn un(v: Vec<P>) -> P { UnionExec::try_new(v).unwrap() }
fn leaf(t: &Table) -> P { let d = counting(t, None); Arc::new(Data { props: data(t).properties().clone(), ..d }) }
/// Probes over the wire.
pub fn encode(p: &P, b: &mut Vec<u8>) -> bool { let Some(p) = p.downcast_ref::<Probe>() else { return false }; b.push(p.id as u8); true }
pub fn decode(b: &[u8], c: &[P]) -> P { pr(b[0] as usize, Arc::clone(&c[0])) }
fn shape(k: usize, n: usize, m: usize, keys: u64) -> (P, usize, bool) {
    use datafusion::physical_plan::aggregates::AggregateMode::*;
    let mut id = 1; let a = table(&mut id, n, 2, keys); let b = table(&mut id, m, 2, keys); let (x, y) = (|i| pr(i, leaf(&a)), |i| pr(i, leaf(&b)));
    match k {
        0 => (pr(0, group(x(1), 2)), 2, true), 1 => (pr(0, agg(FinalPartitioned, true, pr(1, hash(pr(2, agg(Partial, true, x(3))), 2)))), 4, true),
        2 => (pr(0, sort(pr(1, x(2)), None)), 3, true), 3 => (pr(0, hash_join(x(1), y(2), join_type(3), 2)), 3, true), 4 => (pr(0, collect_join(x(1), y(2), join_type(1), false)), 3, true),
        5 => (pr(0, un(vec![x(1), pr(2, group(y(3), 2))])), 4, true), 6 => (pr(0, count(pr(1, un(vec![x(2), y(3), pr(4, x(5))])))), 6, true), 7 => (pr(0, count(pr(1, group(x(2), 2)))), 3, true),
        8 => (pr(0, group(collect_join(x(1), pr(2, sort(y(3), None)), join_type(0), false), 2)), 4, true), 9 => (pr(0, count(pr(1, un(vec![pr(2, group(x(3), 2)), pr(4, group(y(5), 1))])))), 6, true),
        10 => (pr(0, limit(x(1), 0, Some(1))), 2, false), 11 => (pr(0, count(pr(1, limit(pr(2, un(vec![x(3), y(4)])), 0, Some(2))))), 5, false), _ => (pr(0, limit(hash_join(x(1), y(2), join_type(0), 2), 0, Some(1))), 3, false),
    }
}
//# prop=C14 tier=quick bounds="13 shapes of query (scan, group, partials, sort, hash join, broadcast join, unions spread over the tasks or not, nested, limited) over tables of up to 2 rows per partition, keys 0..1, 1..2 partitions and 2..3 tasks per leaf on 3 workers; partial reduction or not; plans sent as bytes or not; metrics per task and summed" covers="distributed,rows counted,tasks told apart,plan sent as bytes" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c14_nodes() {
    let k = nd::pick(0, 12); let c = Cfg { leaf_tasks: nd::pick(2, 3), isolate: nd::bool(), partial_reduce: k < 2 && nd::bool(), placed: true, workers: 3, wire: nd::bool(), ..Cfg::default() };
    let (p, probes, full) = shape(k, nd::pick(1, 2), 1, 1); metered(c, p, probes, Sched::default(), full)
}
//# prop=C14 tier=quick bounds="the same 13 shapes with task counts decided while the query runs, 2 partitions per leaf, up to 3 tasks; metrics per task and summed" covers="distributed,rows counted" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c14_adaptive() {
    let k = nd::pick(0, 12); let c = Cfg { leaf_tasks: nd::pick(2, 3), isolate: nd::bool(), placed: true, dynamic: true, bytes_per_partition: [8, 1 << 20][nd::pick(0, 1)], workers: 3, ..Cfg::default() };
    let (p, probes, full) = shape(k, 2, 1, 1); metered(c, p, probes, Sched::default(), full)
}
//# prop=C14 tier=quick bounds="the same 13 shapes with the coordinator a worker too and every task on any of 2 workers, 2 tasks per leaf" covers="distributed,rows counted" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c14_local() {
    let k = nd::pick(0, 12); let c = Cfg { leaf_tasks: 2, local: true, routed: true, ..Cfg::default() };
    let (p, probes, full) = shape(k, 1, 1, 1); metered(c, p, probes, Sched::default(), full)
}
//# prop=C14 tier=quick bounds="6 of the same shapes, rows of one key, 2 tasks per leaf on 2 workers; woken tasks run in any order that departs once from the round robin" covers="distributed,rows counted" shards=14 depth=8
#[unsafe(no_mangle)] pub extern "C" fn h_c14_schedules() {
    let k = [0, 3, 4, 6, 10, 11][nd::pick(0, 5)]; let c = Cfg { leaf_tasks: 2, placed: true, ..Cfg::default() };
    let (p, probes, full) = shape(k, 1, 1, 0); metered(c, p, probes, Sched { dev: 1, ..Sched::default() }, full)
}
//# prop=C14 tier=thorough bounds="6 of the same shapes, 2 tasks per leaf on 2 workers; woken tasks run in any order that departs once from the round robin" covers="distributed,rows counted" shards=14 depth=8
#[unsafe(no_mangle)] pub extern "C" fn h_c14_schedules_keys() {
    let k = [0, 3, 4, 6, 10, 11][nd::pick(0, 5)]; let c = Cfg { leaf_tasks: 2, placed: true, ..Cfg::default() };
    let (p, probes, full) = shape(k, 1, 1, 1); metered(c, p, probes, Sched { dev: 1, ..Sched::default() }, full)
}
