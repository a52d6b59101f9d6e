//! Shared pieces of the harnesses.
use crate::*;
use crate::stage::RemoteStage;
use datafusion::arrow::array::RecordBatch;
use datafusion::arrow::datatypes::{Schema, SchemaRef};
use datafusion::common::Result;
use datafusion::execution::TaskContext;
use datafusion::execution::config::SessionConfig;
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::execution::SendableRecordBatchStream;
use datafusion::physical_expr::{Partitioning, PhysicalExpr};
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use futures::Stream;
use futures::stream::BoxStream;
use http::HeaderMap;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use url::Url;

pub use tokio::rt;

pub fn schema() -> SchemaRef { Arc::new(Schema::empty()) }

/// One `execute_task` request as a worker sees it.
#[derive(Clone, Copy)]
pub struct Req { pub worker: usize, pub task: usize, pub start: usize, pub end: usize, pub head: u8, pub head_n: usize }
pub static mut REQS: Vec<Req> = Vec::new();
pub fn reqs() -> &'static mut Vec<Req> { unsafe { &mut *std::ptr::addr_of_mut!(REQS) } }

/// Worker that records each request and answers with one single-batch stream per partition; the
/// batch's tag is `worker * 256 + partition`.
pub struct RecWorker(pub usize);
#[async_trait::async_trait]
impl WorkerChannel for RecWorker {
    async fn coordinator_channel(&mut self, _h: HeaderMap, _r: SetPlanRequest, _c: BoxStream<'static, CoordinatorToWorkerMsg>, _m: ExecutionPlanMetricsSet, _t: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> { datafusion::internal_err!("unused") }
    async fn execute_task(&mut self, _h: HeaderMap, r: ExecuteTaskRequest, _m: ExecutionPlanMetricsSet, _t: &Arc<TaskContext>) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let (head, head_n) = match &r.producer_head { ProducerHead::None => (0, 0), ProducerHead::BroadcastExec { output_partitions } => (1, *output_partitions), ProducerHead::RepartitionExec { partitioning } => (2, partitioning_len(partitioning)) };
        reqs().push(Req { worker: self.0, task: r.task_key.task_number, start: r.target_partition_start, end: r.target_partition_end, head, head_n });
        let mut v: Vec<BoxStream<'static, Result<RecordBatch>>> = Vec::new();
        let mut p = r.target_partition_start;
        while p < r.target_partition_end { v.push(Box::pin(One(Some(batch(self.0 * 256 + p))))); p += 1; }
        Ok(v)
    }
    async fn get_worker_info(&mut self, _r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> { datafusion::internal_err!("unused") }
}
fn partitioning_len(p: &crate::MaybeEncoded<datafusion::physical_expr::Partitioning>) -> usize { match p { crate::MaybeEncoded::Decoded(p) => p.partition_count(), _ => usize::MAX } }
pub fn batch(tag: usize) -> RecordBatch { RecordBatch::model(schema(), 1, 0, tag as u64) }
/// Stream of at most one batch.
pub struct One(pub Option<RecordBatch>);
impl Stream for One { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(self.0.take().map(Ok)) } }

pub struct RecResolver;
#[async_trait::async_trait]
impl ChannelResolver for RecResolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>> { hop().await?; Ok(Box::new(RecWorker(url.id))) }
}
/// Context of consumer task `index` out of `count`, whose workers are recorders.
pub fn consumer_ctx(index: usize, count: usize) -> Arc<TaskContext> {
    let mut cfg = SessionConfig::new();
    crate::protocol::set_distributed_channel_resolver(&mut cfg, RecResolver);
    cfg.set_extension(Arc::new(DistributedTaskContext { task_index: index, task_count: count }));
    Arc::new(TaskContext::model(cfg, Arc::new(RuntimeEnv::default())))
}
pub fn remote_stage(tasks: usize) -> Stage {
    let mut workers = Vec::new(); let mut i = 0;
    while i < tasks { workers.push(Url::n(i)); i += 1; }
    Stage::Remote(RemoteStage { query_id: uuid::Uuid::from_u128(7), num: 1, workers, runtime_stats: None })
}
/// Polls a stream once.
pub fn next<S: Stream + ?Sized>(s: &mut Pin<Box<S>>) -> Poll<Option<S::Item>> {
    let w = rt::waker(0); let mut cx = Context::from_waker(&w); s.as_mut().poll_next(&mut cx)
}
/// Reads a stream to its end; between polls every spawned task makes progress. Panics when stuck.
pub fn drain<S: Stream + ?Sized>(s: &mut Pin<Box<S>>) -> Vec<S::Item> {
    let mut v = Vec::new(); let mut idle = 0;
    loop {
        match next(s) { Poll::Ready(None) => return v, Poll::Ready(Some(x)) => { v.push(x); idle = 0; } Poll::Pending => { idle += 1; assert!(idle < 6, "stream never completes"); rt::step_all(); } }
    }
}
/// Tags of all batches of a stream that must not fail.
pub fn tags(s: &mut datafusion::execution::SendableRecordBatchStream) -> Vec<usize> {
    let v = drain(s); let mut o = Vec::new();
    for b in v { match b { Ok(b) => o.push(b.tag as usize), Err(_) => panic!("unexpected error in a stream") } }
    o
}
/// One scripted event of a leaf stream.
#[derive(Clone, Copy, Debug)] pub enum Ev { Batch(usize), Fail, Wait }
/// Leaf with scripted partitions. `EXECUTED[id][p]` counts executions.
#[derive(Debug, Clone)] pub struct Leaf { pub id: usize, pub script: Arc<Vec<Vec<Ev>>>, pub props: Arc<PlanProperties>, pub bytes: usize }
pub static mut EXECUTED: [[usize; 8]; 8] = [[0; 8]; 8];
pub fn executed(id: usize, p: usize) -> usize { unsafe { EXECUTED[id][p] } }
impl Leaf {
    pub fn new(id: usize, script: Vec<Vec<Ev>>) -> Arc<dyn ExecutionPlan> { Arc::new(Self::sized(id, script, 0)) }
    pub fn sized(id: usize, script: Vec<Vec<Ev>>, bytes: usize) -> Self { let n = script.len(); let props = EmptyExec::new(schema()).with_partitions(n).properties().clone(); Leaf { id, script: Arc::new(script), props, bytes } }
}
impl DisplayAs for Leaf { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Leaf") } }
impl ExecutionPlan for Leaf {
    fn name(&self) -> &str { "Leaf" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if p >= self.script.len() { return datafusion::internal_err!("no such partition"); }
        unsafe { EXECUTED[self.id][p] += 1; }
        Ok(Box::pin(LeafStream { s: Arc::clone(&self.script), p, i: 0, bytes: self.bytes }))
    }
}
pub struct LeafStream { s: Arc<Vec<Vec<Ev>>>, p: usize, i: usize, bytes: usize }
impl LeafStream { pub fn new(s: Arc<Vec<Vec<Ev>>>, p: usize) -> Self { LeafStream { s, p, i: 0, bytes: 0 } } }
impl Stream for LeafStream { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let Some(e) = self.s[self.p].get(self.i).copied() else { return Poll::Ready(None) };
    self.i += 1;
    match e { Ev::Batch(t) => { let mut b = batch(t); b.bytes = self.bytes; Poll::Ready(Some(Ok(b))) } Ev::Fail => Poll::Ready(Some(datafusion::exec_err!("leaf failed"))), Ev::Wait => { cx.waker().wake_by_ref(); Poll::Pending } }
} }
impl datafusion::execution::RecordBatchStream for LeafStream { fn schema(&self) -> SchemaRef { schema() } }

/// Real workers reached in process, one per URL.
pub static mut WORKERS: Vec<Worker> = Vec::new();
pub fn workers() -> &'static mut Vec<Worker> { unsafe { &mut *std::ptr::addr_of_mut!(WORKERS) } }
pub struct ClusterResolver;
#[async_trait::async_trait]
impl ChannelResolver for ClusterResolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>> { hop().await?; Ok(Box::new(Remote(crate::protocol::in_process::InProcessWorkerClient::new(workers()[url.id].clone()), url.id))) }
}
/// Network operations so far (connecting, sending a plan, asking for partitions, each item received), the
/// one that fails, and how many of them may take an extra turn of the scheduler.
pub static mut HOPS: usize = 0; pub static mut FAIL_HOP: usize = usize::MAX; pub static mut SLOW: usize = 0;
fn hop_fails() -> bool { unsafe { HOPS += 1; HOPS - 1 == FAIL_HOP } }
async fn hop() -> Result<()> { if hop_fails() { return datafusion::exec_err!("network failed"); } if unsafe { SLOW } > 0 { if nd::bool() { unsafe { SLOW -= 1; } nd::cover("slow hop"); tokio::task::yield_now().await; } } Ok(()) }
/// Stream over the network: it breaks when the failing operation is one of its items.
struct Wire<T>(Option<BoxStream<'static, Result<T>>>);
impl<T> Unpin for Wire<T> {}
impl<T> Stream for Wire<T> { type Item = Result<T>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let Some(s) = self.0.as_mut() else { return Poll::Ready(None) };
    match s.as_mut().poll_next(cx) { Poll::Ready(Some(v)) => { if hop_fails() { self.0 = None; return Poll::Ready(Some(datafusion::exec_err!("network failed"))); } Poll::Ready(Some(v)) } Poll::Ready(None) => { self.0 = None; Poll::Ready(None) } Poll::Pending => Poll::Pending }
} }
fn wire<T: 'static>(s: BoxStream<'static, Result<T>>) -> BoxStream<'static, Result<T>> { if unsafe { FAIL_HOP } == usize::MAX { s } else { Box::pin(Wire(Some(s))) } }
/// Worker in another process: plans arrive as copies that share no state with the sender's.
pub struct Remote(crate::protocol::in_process::InProcessWorkerClient, usize);
/// Whether plans and work units travel as bytes.
pub static mut ENCODE: bool = false;
/// Plans sent: stage, task, number of tasks, worker.
pub static mut PLANS: Vec<(usize, usize, usize, usize)> = Vec::new();
pub fn plans() -> &'static mut Vec<(usize, usize, usize, usize)> { unsafe { &mut *std::ptr::addr_of_mut!(PLANS) } }
/// Every task of every stage was given to one worker, once.
pub fn check_plans(max: usize) {
    let v = plans(); let mut i = 0;
    while i < v.len() {
        assert!(v[i].1 < v[i].2, "tasks are numbered below their count");
        let mut j = 0; let mut n = 0;
        while j < v.len() { if v[j].0 == v[i].0 { n += 1; assert!(v[j].2 == v[i].2, "the tasks of a stage agree on their number"); assert!(i == j || v[j].1 != v[i].1, "a task is planned once"); } j += 1; }
        assert!(n == v[i].2, "every task of a stage is planned");
        assert!(n <= max, "no more tasks than allowed");
        if n > 1 { nd::cover("stage of several tasks"); }
        i += 1;
    }
}
#[async_trait::async_trait]
impl WorkerChannel for Remote {
    async fn coordinator_channel(&mut self, h: HeaderMap, mut r: SetPlanRequest, c: BoxStream<'static, CoordinatorToWorkerMsg>, m: ExecutionPlanMetricsSet, t: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        super::settings::seen(&h); plans().push((r.task_key.stage_id, r.task_key.task_number, r.task_count, r.target_worker_url.id));
        assert!(r.target_worker_url.id == self.1, "a plan is sent to the worker it names");
        if unsafe { ENCODE } { r.plan = MaybeEncoded::Encoded(r.plan.encode(t)?); nd::cover("plan sent as bytes"); let mut d = Vec::new(); for x in r.work_unit_feed_declarations { d.push(WorkUnitFeedDeclaration { id: x.id, partitions: x.partitions }); } r.work_unit_feed_declarations = d; }
        else if let MaybeEncoded::Decoded(p) = r.plan { r.plan = MaybeEncoded::Decoded(copy(&p)); }
        hop().await?; if super::feeds::breaks() { let c = super::feeds::broken_wire(c); return Ok(wire(workers()[self.1].clone().coordinator_channel(h, r, c).await?)); } let c = super::feeds::over_the_wire(c); Ok(wire(self.0.coordinator_channel(h, r, c, m, t).await?))
    }
    async fn execute_task(&mut self, h: HeaderMap, mut r: ExecuteTaskRequest, m: ExecutionPlanMetricsSet, t: &Arc<TaskContext>) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> { super::settings::seen(&h); hop().await?; if unsafe { ENCODE } { if let ProducerHead::RepartitionExec { partitioning } = r.producer_head { r.producer_head = ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Encoded(partitioning.encode(t)?) }; } } let v = self.0.execute_task(h, r, m, t).await?; let mut o = Vec::new(); for s in v { o.push(wire(s)); } Ok(o) }
    async fn get_worker_info(&mut self, r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> { self.0.get_worker_info(r).await }
}
/// Plan of new nodes, as decoding an encoded plan gives.
pub fn copy(p: &Arc<dyn ExecutionPlan>) -> Arc<dyn ExecutionPlan> { let c = p.children().iter().map(|c| copy(c)).collect(); Arc::clone(p).with_new_children(c).unwrap() }
pub fn cluster_ctx(index: usize, count: usize) -> Arc<TaskContext> {
    let mut cfg = SessionConfig::new();
    crate::protocol::set_distributed_channel_resolver(&mut cfg, ClusterResolver);
    cfg.set_extension(Arc::new(DistributedTaskContext { task_index: index, task_count: count }));
    Arc::new(TaskContext::model(cfg, Arc::new(RuntimeEnv::default())))
}
pub const QUERY: uuid::Uuid = uuid::Uuid::from_u128(7);
pub fn set_plan_request(stage: usize, task: usize, task_count: usize, plan: Arc<dyn ExecutionPlan>) -> SetPlanRequest {
    SetPlanRequest { task_key: TaskKey { query_id: QUERY, stage_id: stage, task_number: task }, task_count, plan: MaybeEncoded::Decoded(plan), work_unit_feed_declarations: vec![], target_worker_url: Url::n(task), query_start_time_ns: 0 }
}
/// Headers a coordinator sends along with a plan.
pub fn plan_headers() -> HeaderMap { HeaderMap::new() }
/// Starts `tasks` workers and gives worker `i` task `i` of stage 1 with the plan `mk(i)`.
pub fn start_cluster(tasks: usize, mk: impl Fn(usize) -> Arc<dyn ExecutionPlan>) {
    let mut i = 0;
    while i < tasks {
        let w = Worker::default();
        let r = rt::block_on(w.coordinator_channel(plan_headers(), set_plan_request(1, i, tasks, mk(i)), Box::pin(futures::stream::pending())));
        match r { Ok(s) => std::mem::forget(s), Err(_) => panic!("set plan failed") }
        workers().push(w);
        i += 1;
    }
}
