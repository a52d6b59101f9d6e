//! C13: work units produced on the coordinator reach the tasks that read them.
use super::e2e::*;
use super::util::*;
use crate::common::MaybeEncoded;
use crate::*;
use datafusion::common::Result;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use datafusion::prelude::SessionConfig;
use futures::Stream;
use futures::stream::BoxStream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use uuid::Uuid;

#[derive(Clone, PartialEq, ::prost::Message)] pub struct Unit { #[prost(uint64, tag = "1")] pub row: u64 }
/// Deals its units out to all partitions of all tasks. Fails, when asked to, after the units of the
/// partition `fail`; waits, when asked to, before each unit.
#[derive(Debug, Clone)] pub struct Units { pub rows: Vec<u64>, pub parts: usize, pub fail: Option<usize>, pub wait: bool, /** The units that come at once: so many of one partition; the others come much later. */ pub early: Option<(usize, usize)> }
pub static mut FEEDS_OPENED: usize = 0; static mut FEEDS_ALIVE: usize = 0;
impl WorkUnitFeedProvider for Units {
    type WorkUnit = Unit;
    fn feed(&self, p: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<Unit>>> {
        let n = self.parts * DistributedWorkUnitFeedContext::from_ctx(&ctx).fan_out_tasks; assert!(p < n, "a feed is asked for the partitions of its tasks only");
        let mut rows = Vec::new(); let mut i = 0; while i < self.rows.len() { if i % n == p { rows.push(self.rows[i]); } i += 1; }
        unsafe { FEEDS_OPENED += 1; FEEDS_ALIVE += 1; }
        Ok(Box::pin(Source { rows, i: 0, fail: self.fail == Some(p), wait: self.wait, waited: false, late: self.early.map(|(e, k)| (if e == p { k } else { 0 }, Box::pin(tokio::time::timeout(std::time::Duration::from_secs(1), futures::future::pending()))))}))
    }
}
struct Source { rows: Vec<u64>, i: usize, fail: bool, wait: bool, waited: bool, late: Option<(usize, Pin<Box<tokio::time::Timeout<futures::future::Pending<()>>>>)> }
impl Drop for Source { fn drop(&mut self) { unsafe { FEEDS_ALIVE -= 1; } } }
impl Stream for Source { type Item = Result<Unit>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    if self.wait && !self.waited { self.waited = true; cx.waker().wake_by_ref(); return Poll::Pending; } self.waited = false;
    let i = self.i; if let Some((k, t)) = self.late.as_mut() { if i >= *k { if std::future::Future::poll(t.as_mut(), cx).is_pending() { return Poll::Pending; } self.late = None; } }
    if self.i == self.rows.len() { if self.fail { self.fail = false; return Poll::Ready(Some(datafusion::exec_err!("feed failed"))); } return Poll::Ready(None); }
    self.i += 1; Poll::Ready(Some(Ok(Unit { row: self.rows[self.i - 1] })))
} }
/// Leaf that returns a row for each unit of its feed.
#[derive(Debug, Clone)] pub struct Feed { pub feed: WorkUnitFeed<Units>, pub props: Arc<PlanProperties> }
impl Feed { pub fn new(id: u128, u: Units) -> Self { let props = Data::new(vec![vec![]; u.parts]).props; Feed { feed: WorkUnitFeed { id: Uuid::from_u128(id), provider: crate::work_unit_feed::work_unit_feed::RemoteOrLocalProvider::Local(u) }, props } } }
impl DisplayAs for Feed { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Feed") } }
impl ExecutionPlan for Feed {
    fn name(&self) -> &str { "Feed" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&P> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<P>) -> Result<P> { Ok(self) }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { Ok(Box::pin(Rows { schema: self.schema(), s: self.feed.feed(p, c)? })) }
}
struct Rows { schema: datafusion::arrow::datatypes::SchemaRef, s: BoxStream<'static, Result<Unit>> }
impl Stream for Rows { type Item = Result<datafusion::arrow::array::RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    match self.s.as_mut().poll_next(cx) { Poll::Ready(Some(Ok(u))) => Poll::Ready(Some(Ok(datafusion::arrow::array::RecordBatch::model(Arc::clone(&self.schema), 1, 8, u.row)))), Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e))), Poll::Ready(None) => Poll::Ready(None), Poll::Pending => Poll::Pending }
} }
impl datafusion::execution::RecordBatchStream for Rows { fn schema(&self) -> datafusion::arrow::datatypes::SchemaRef { Arc::clone(&self.schema) } }
fn getter(f: &Feed) -> Option<&WorkUnitFeed<Units>> { Some(&f.feed) }
pub fn register(cfg: &mut SessionConfig) { cfg.set_distributed_work_unit_feed(getter); }
pub fn scale(ev: &ScaleUpLeafNodeEvent<'_>) -> Option<ScaleUpLeafNodeEventResponse> {
    let f = ev.plan.downcast_ref::<Feed>()?; let u = f.feed.inner()?; let n = u.parts.div_ceil(ev.task_count);
    Some(ScaleUpLeafNodeEventResponse::new(Arc::new(Feed::new(f.feed.id.as_u128(), Units { parts: n, ..u.clone() }))))
}
pub fn encode(p: &P, b: &mut Vec<u8>) -> bool { let Some(f) = p.downcast_ref::<Feed>() else { return false }; b.push(f.props.output_partitioning().partition_count() as u8); b.extend_from_slice(&f.feed.to_proto().id); true }
pub fn decode(b: &[u8]) -> Result<P> { Ok(Arc::new(Feed { props: Data::new(vec![vec![]; b[0] as usize]).props, feed: WorkUnitFeed::from_proto(WorkUnitFeedProto { id: b[1..].to_vec() })? })) }

/// How far the clock of the workers is behind the coordinator's.
pub static mut BEHIND: usize = 0;
struct ToWorker(BoxStream<'static, CoordinatorToWorkerMsg>);
impl Stream for ToWorker { type Item = CoordinatorToWorkerMsg; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { match self.0.as_mut().poll_next(cx) {
    Poll::Ready(Some(CoordinatorToWorkerMsg::WorkUnitBatch(b))) => { nd::cover("work units sent"); let mut v = Vec::new(); for mut u in b.batch { u.created_timestamp_unix_nanos += unsafe { BEHIND }; u.sent_timestamp_unix_nanos += unsafe { BEHIND }; if unsafe { ENCODE } { if let MaybeEncoded::Decoded(w) = u.body { u.body = MaybeEncoded::Encoded(w.encode_to_bytes()); } } v.push(u); } Poll::Ready(Some(CoordinatorToWorkerMsg::WorkUnitBatch(WorkUnitBatch { batch: v }))) }
    x => x,
} } }
pub fn over_the_wire(s: BoxStream<'static, CoordinatorToWorkerMsg>) -> BoxStream<'static, CoordinatorToWorkerMsg> { Box::pin(ToWorker(s)) }

/// Messages the coordinator gets through to workers before the link to one of them breaks.
pub static mut BREAKS_AT: usize = usize::MAX; static mut BROKE: bool = false;
pub fn breaks() -> bool { unsafe { BREAKS_AT != usize::MAX } }
struct Broken(Option<BoxStream<'static, CoordinatorToWorkerMsg>>);
impl Stream for Broken { type Item = Result<CoordinatorToWorkerMsg>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let Some(s) = self.0.as_mut() else { return Poll::Ready(None) };
    match s.as_mut().poll_next(cx) { Poll::Ready(Some(m)) => unsafe { if BREAKS_AT == 0 && !BROKE { BROKE = true; self.0 = None; return Poll::Ready(Some(datafusion::exec_err!("link broke"))); } if !BROKE { BREAKS_AT -= 1; } Poll::Ready(Some(Ok(m))) }, Poll::Ready(None) => { self.0 = None; Poll::Ready(None) } Poll::Pending => Poll::Pending }
} }
pub fn broken_wire(s: BoxStream<'static, CoordinatorToWorkerMsg>) -> BoxStream<'static, Result<CoordinatorToWorkerMsg>> { Box::pin(Broken(Some(over_the_wire(s)))) }

fn units(n: usize, from: u64) -> Vec<u64> { let mut v = Vec::new(); while v.len() < n { v.push((from + v.len() as u64) << 8 | nd::range(0, 1) as u64); } v }
fn feed(id: u128, u: &Units) -> P { Arc::new(Feed::new(id, u.clone())) }
fn un(v: Vec<P>) -> P { UnionExec::try_new(v).unwrap() }
fn cfg() -> Cfg { Cfg { feeds: true, leaf_tasks: nd::pick(1, 3), workers: 2, wire: nd::bool(), ..Cfg::default() } }
fn finished() { assert!(unsafe { FEEDS_ALIVE } == 0, "no feed outlives its query"); }
//# prop=C13 tier=quick bounds="a feed of 0, 1, 3 or 4 units, every key 0..1, read by 1..3 partitions over 1..3 tasks on 2 workers, alone, grouped, counted and ordered; feeds that wait before each unit or not; plans and units sent as bytes or not; worker clocks any time behind" covers="distributed,rows returned,work units sent,plan sent as bytes" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c13_units() {
    let c = cfg(); let u = Units { rows: units([0, 1, 3, 4][nd::pick(0, 3)], 1), parts: nd::pick(1, 3), fail: None, wait: nd::bool(), early: None }; unsafe { BEHIND = nd::u32() as usize; }
    match nd::pick(0, 3) { 0 => check(c, || feed(1, &u), None, Cmp::Rows), 1 => check(c, || group(feed(1, &u), 2), None, Cmp::Rows), 2 => check(c, || count(feed(1, &u)), None, Cmp::Rows), _ => check(c, || sort(feed(1, &u), None), None, Cmp::Order) }
    finished();
}
//# prop=C13 tier=quick bounds="two feeds of 3 and 2 units over 2 and 1 partitions, joined, united (spread over the tasks or not) with each other and with a scan, limited to 2 rows; 1..3 tasks per leaf on 2 workers; plans and units sent as bytes or not" covers="distributed,rows returned,work units sent" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c13_shapes() {
    let c = Cfg { isolate: nd::bool(), ..cfg() }; let w = nd::bool(); let u = Units { rows: vec![1 << 8, 2 << 8 | 1, 3 << 8], parts: 2, fail: None, wait: w, early: None }; let v = Units { rows: vec![4 << 8, 5 << 8 | 1], parts: 1, fail: None, wait: false, early: None };
    let mut id = 9; let t = table(&mut id, 2, 1, 0); let (a, b) = (|| feed(1, &u), || feed(2, &v));
    match nd::pick(0, 6) {
        0 => check(c, || hash_join(a(), b(), join_type(3), 2), None, Cmp::Rows), 1 => check(c, || collect_join(b(), a(), join_type(0), false), None, Cmp::Rows), 2 => check(c, || un(vec![a(), b()]), None, Cmp::Rows),
        3 => check(c, || un(vec![count(a()), data(&t), group(b(), 2)]), None, Cmp::Rows), 4 => check(c, || limit(a(), 0, Some(2)), Some(a()), Cmp::Limited), 5 => check(c, || group(un(vec![data(&t), a(), b()]), 2), None, Cmp::Rows),
        _ => check(c, || collect_join(un(vec![a(), b()]), data(&t), join_type(0), false), None, Cmp::Rows),
    }
    finished();
}
//# prop=C13 tier=quick bounds="a feed of 3 units whose partition 0..5 fails after its units, over 1..2 partitions and 1..3 tasks on 2 workers, alone, grouped, ordered, and in a union with a scan" covers="feed failed" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c13_failing() {
    let c = Cfg { isolate: nd::bool(), ..cfg() }; let u = Units { rows: vec![1 << 8, 2 << 8 | 1, 3 << 8], parts: nd::pick(1, 2), fail: Some(nd::pick(0, 5)), wait: nd::bool(), early: None }; let mut id = 9; let t = table(&mut id, 2, 1, 0);
    let p = match nd::pick(0, 3) { 0 => feed(1, &u), 1 => group(feed(1, &u), 2), 2 => sort(feed(1, &u), None), _ => un(vec![data(&t), feed(1, &u)]) };
    let s = session(c, p); let r = match plan(&s) { Ok(p) => { let r = drive(&p, s.task_ctx(), Sched::default()); drop(p); r } Err(e) => Err(e) };
    let opened = unsafe { FEEDS_OPENED }; let failing = u.fail.unwrap() < opened;
    match r { Ok(_) => assert!(!failing, "a failing feed fails the query"), Err(_) => { assert!(failing, "nothing failed"); nd::cover("feed failed") } }
    abandoned(); finished();
}
//# prop=C13 tier=quick bounds="the consumer goes away after any of the first 30 steps of a query over a feed of 4 units, 1..2 partitions and 1..2 tasks, alone and grouped; feeds that wait or not" covers="consumer gone early" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c13_cancelled() {
    let c = Cfg { leaf_tasks: nd::pick(1, 2), feeds: true, ..Cfg::default() }; let u = Units { rows: vec![1 << 8, 2 << 8 | 1, 3 << 8, 4 << 8], parts: nd::pick(1, 2), fail: None, wait: nd::bool(), early: None };
    let p = match nd::pick(0, 1) { 0 => feed(1, &u), _ => group(feed(1, &u), 2) }; let s = session(c, p); let p = plan(&s).unwrap();
    match drive(&p, s.task_ctx(), Sched { drop_at: nd::pick(0, 30), ..Sched::default() }) { Ok(_) => {} Err(e) => panic!("nothing failed: {e}") } drop(p); drop(s);
    abandoned(); finished();
}
//# prop=C13 tier=quick bounds="a feed of 3..8 units over 2..3 partitions and 1..2 tasks of which each partition reads 1..2 units and goes; units that come at once, after a wait each, or at once for one partition and much later for the others; plans and units sent as bytes or not; woken tasks run in any order that departs once from the round robin" covers="early readers" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c13_early_readers() {
    let tasks = nd::pick(1, 2); let n = nd::pick(3, 8); let parts = nd::pick(2, 3); let c = Cfg { leaf_tasks: tasks, feeds: true, placed: true, wire: n % 2 == 0 && nd::bool(), ..Cfg::default() };
    let k = nd::pick(1, 2); let (wait, early) = match nd::pick(0, 4) { 0 => (false, None), 1 => (true, None), e => (false, Some((e - 2, k))) };
    let u = Units { rows: { let mut v = Vec::new(); while v.len() < n { v.push((v.len() as u64 + 1) << 8); } v }, parts, fail: None, wait, early };
    let p: P = Arc::new(datafusion::physical_plan::limit::LocalLimitExec::new(feed(1, &u), k)); let counted = early.is_none() && nd::bool();
    let s = session(c, if counted { count(p) } else { p }); let p = plan(&s).unwrap(); let got = match drive(&p, s.task_ctx(), Sched { dev: (n < 6) as usize, ..Sched::default() }) { Ok(v) => tag_list(&v.unwrap()), Err(e) => panic!("nothing failed: {e}") };
    let all = if p.is::<DistributedExec>() { u.parts.div_ceil(tasks) * tasks } else { u.parts }; let mut want = 0; let mut i = 0; while i < n { if i / all < k { want += 1; } i += 1; }
    let got = if counted && want > 1 { (got[0] >> 8) as usize } else { got.len() };
    assert!(got == want, "a reader that has read enough takes nothing from others"); if want > 1 { nd::cover("early readers"); }
    drop(p); released(); finished();
}
//# prop=C13 tier=quick bounds="a feed of 3 or 4 units, every key 0..1, over 1..2 partitions and 1..3 tasks, alone, grouped, counted and ordered; the link from the coordinator to a worker breaks at any of its first 8 messages; feeds that wait before each unit or not" covers="link broke" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c13_broken_link() {
    let c = Cfg { leaf_tasks: nd::pick(1, 3), feeds: true, placed: true, ..Cfg::default() }; let u = Units { rows: units(nd::pick(3, 4), 1), parts: nd::pick(1, 2), fail: None, wait: nd::bool(), early: None };
    let mk = || match unsafe { SHAPE } { 0 => feed(1, &u), 1 => group(feed(1, &u), 2), 2 => count(feed(1, &u)), _ => sort(feed(1, &u), None) };
    unsafe { SHAPE = nd::pick(0, 3); BREAKS_AT = nd::pick(0, 7); }
    let s = session(c, mk()); let p = plan(&s).unwrap(); let r = drive(&p, s.task_ctx(), Sched::default()); drop(p); drop(s);
    if unsafe { BROKE } { nd::cover("link broke"); } else { assert!(r.is_ok(), "nothing failed"); }
    if let Ok(v) = r { let want = collect(&mk(), SessionStateBuilder::new().with_config(SessionConfig::new()).build().task_ctx()).unwrap(); assert!(same_rows(&tag_list(&v.unwrap()), &tag_list(&want)), "units lost on the way fail the query"); }
    abandoned();
}
static mut SHAPE: usize = 0;
