import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mkbug
PRE='''
#![allow(unused)]
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::Result;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, expressions::col};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use futures::{Stream, StreamExt, TryStreamExt, stream::BoxStream};
use std::sync::{Arc, Mutex};

fn schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("v", DataType::Int64, false)])) }
fn batch(v: i64) -> RecordBatch { RecordBatch::try_new(schema(), vec![Arc::new(Int64Array::from(vec![v]))]).unwrap() }
fn values(b: &RecordBatch) -> Vec<i64> { b.column(0).as_any().downcast_ref::<Int64Array>().unwrap().values().to_vec() }
/// Leaf whose partition p yields the given one-row batches.
#[derive(Debug, Clone)] struct Rows { parts: Vec<Vec<i64>>, props: Arc<PlanProperties> }
impl Rows { fn new(parts: Vec<Vec<i64>>) -> Arc<dyn ExecutionPlan> { let props = Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(parts.len()), EmissionType::Incremental, Boundedness::Bounded)); Arc::new(Rows { parts, props }) } }
impl DisplayAs for Rows { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Rows") } }
impl ExecutionPlan for Rows {
    fn name(&self) -> &str { "Rows" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>) -> Result<datafusion::common::tree_node::TreeNodeRecursion> { Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let it: Vec<Result<RecordBatch>> = self.parts[p].iter().map(|v| Ok(batch(*v))).collect();
        // one batch per poll, giving way in between
        let s = futures::stream::iter(it).then(|b| async move { tokio::task::yield_now().await; b });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema(), s)))
    }
}
/// In-process workers, one per URL http://w<i>:80.
struct Cluster(Vec<Worker>);
#[async_trait::async_trait]
impl ChannelResolver for Cluster {
    async fn get_worker_client_for_url(&self, url: &url::Url) -> Result<Box<dyn WorkerChannel>> {
        let i: usize = url.host_str().unwrap()[1..].parse().unwrap();
        Ok(Box::new(protocol::in_process::InProcessWorkerClient::new(self.0[i].clone())))
    }
}
fn url(i: usize) -> url::Url { url::Url::parse(&format!("http://w{i}:80")).unwrap() }
const QUERY: uuid::Uuid = uuid::Uuid::from_u128(7);
async fn cluster(n: usize, mk: impl Fn(usize) -> Arc<dyn ExecutionPlan>) -> Arc<Vec<Worker>> {
    let mut v = vec![];
    for i in 0..n {
        let w = Worker::default();
        let ctx = SessionContext::new().task_ctx();
        let mut ch: Box<dyn WorkerChannel> = Box::new(protocol::in_process::InProcessWorkerClient::new(w.clone()));
        let req = SetPlanRequest { task_key: TaskKey { query_id: QUERY, stage_id: 1, task_number: i }, task_count: n, plan: MaybeEncoded::Decoded(mk(i)), work_unit_feed_declarations: vec![], target_worker_url: url(i), query_start_time_ns: 0 };
        let s = ch.coordinator_channel(Default::default(), req, Box::pin(futures::stream::pending()), ExecutionPlanMetricsSet::new(), &ctx).await.unwrap();
        std::mem::forget(s);
        v.push(w);
    }
    Arc::new(v)
}
fn ctx(ws: &Arc<Vec<Worker>>, index: usize, count: usize) -> Arc<TaskContext> {
    let cfg = SessionConfig::new().with_distributed_channel_resolver(Cluster(ws.to_vec())).with_extension(Arc::new(DistributedTaskContext { task_index: index, task_count: count }));
    SessionContext::new_with_config(cfg).task_ctx()
}
fn remote(n: usize) -> Stage { Stage::Remote(stage::RemoteStage { query_id: QUERY, num: 1, workers: (0..n).map(url).collect(), runtime_stats: None }) }
/// Rows of every partition of `plan` executed as task `t` of `m`.
async fn rows(plan: &Arc<dyn ExecutionPlan>, ws: &Arc<Vec<Worker>>, t: usize, m: usize) -> Result<Vec<Vec<i64>>> {
    let mut out = vec![]; let c = ctx(ws, t, m);
    for p in 0..plan.output_partitioning().partition_count() {
        let b: Vec<RecordBatch> = plan.execute(p, Arc::clone(&c))?.try_collect().await?;
        out.push(b.iter().flat_map(values).collect());
    }
    Ok(out)
}
'''
mkbug("coalesce-uneven","C01",[("src/execution_plans/network_coalesce.rs","""        let partitions_per_task = out_partitions
            .checked_div(
                self.input_stage
                    .task_count()
                    .div_ceil(task_context.task_count)
                    .max(1),
            )
            .unwrap_or(0);""","""        let partitions_per_task = out_partitions
            .checked_div((self.input_stage.task_count() / task_context.task_count).max(1))
            .unwrap_or(0);""")],
"a gather whose producer task count is not a multiple of the consumer task count",
"the partitions per producer task are derived from the rounded-down group size while the node was sized with the rounded-up one, so rows of some producer tasks are never requested",
PRE+'''
#[tokio::main]
async fn main() {
    let ws = cluster(3, |i| Rows::new(vec![vec![10 * i as i64], vec![10 * i as i64 + 1]])).await;
    let mut all = vec![];
    for t in 0..2 {
        let node = NetworkCoalesceExec::try_new(Rows::new(vec![vec![], vec![]]), 3, 2).unwrap().with_input_stage(remote(3)).unwrap();
        let plan: Arc<dyn ExecutionPlan> = node;
        for r in rows(&plan, &ws, t, 2).await.unwrap() { all.extend(r); }
    }
    all.sort();
    assert_eq!(all, vec![0, 1, 10, 11, 20, 21]);
}
''')
mkbug("shuffle-wide-producer","C02",[("src/distributed_planner/network_boundary.rs","""            ProducerHead::RepartitionExec { partitioning } => Arc::new(RepartitionExec::try_new(
                input,
                partitioning.try_decoded()?,
            )?),""","""            ProducerHead::RepartitionExec { partitioning } => {
                // Keep the parallelism of the input, a repartition should never narrow it.
                let input_partitions = input.output_partitioning().partition_count();
                let partitioning = match partitioning.try_decoded()? {
                    Partitioning::Hash(exprs, n) => {
                        Partitioning::Hash(exprs, n.max(input_partitions))
                    }
                    other => other,
                };
                Arc::new(RepartitionExec::try_new(input, partitioning)?)
            }""")],
"a shuffle whose producer tasks have more input partitions than the slots all consumers read",
"the producer creates more hash slots than the consumers ask for; rows in the extra slots are never read",
PRE+'''
#[tokio::main]
async fn main() {
    let hash = |n| Partitioning::Hash(vec![col("v", &schema()).unwrap()], n);
    let head = |l| -> Arc<dyn ExecutionPlan> { Arc::new(RepartitionExec::try_new(l, hash(1)).unwrap()) };
    let parts = |i: usize| (0..4).map(|p| (0..4).map(|k| (i * 100 + p * 10 + k) as i64).collect::<Vec<_>>()).collect::<Vec<_>>();
    let ws = cluster(2, |i| head(Rows::new(parts(i)))).await;
    let mut all = vec![];
    for t in 0..2 {
        let node = NetworkShuffleExec::try_new(head(Rows::new(vec![vec![]])), 2).unwrap().with_input_stage(remote(2)).unwrap();
        let plan: Arc<dyn ExecutionPlan> = node;
        for r in rows(&plan, &ws, t, 2).await.unwrap() { all.extend(r); }
    }
    all.sort();
    let mut want: Vec<i64> = (0..2).flat_map(|i| parts(i).concat()).collect(); want.sort();
    assert_eq!(all, want);
}
''')
mkbug("broadcast-task-lifetime","C03",[("src/execution_plans/broadcast.rs","""        let (consumer, task) = match queue_or_err {
            Ok((consumers, task)) => (consumers.pop(), Arc::clone(task)),
""","""        // The task lives next to the consumers, for as long as this node does.
        let consumer = match queue_or_err {
            Ok((consumers, _task)) => consumers.pop(),
"""),("src/execution_plans/broadcast.rs","""        Ok(Box::pin(RecordBatchStreamAdapter::new(
            self.schema(),
            consumer.inspect(move |_| {
                let _ = &task;
            }),
        )))
    }
""","""        Ok(consumer)
    }
"""),("src/execution_plans/broadcast.rs","type StreamAndTask = (SegQueue<SendableRecordBatchStream>, Arc<SpawnedTask<()>>);","type StreamAndTask = (SegQueue<SendableRecordBatchStream>, SpawnedTask<()>);"),
("src/execution_plans/broadcast.rs","Ok::<_, Arc<DataFusionError>>((consumers, Arc::new(task)))","Ok::<_, Arc<DataFusionError>>((consumers, task))")],
"the plan node is dropped (the worker forgot the task) while a consumer is still reading and the producer has not finished",
"the task that fills the broadcast cache is aborted with the node, and the remaining consumers see a clean end of stream with rows missing",
PRE+'''
#[tokio::main]
async fn main() {
    let want: Vec<i64> = (0..50).collect();
    let plan: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(Rows::new(vec![want.clone()]), 2));
    let c = SessionContext::new().task_ctx();
    let (mut a, mut b) = (plan.execute(0, Arc::clone(&c)).unwrap(), plan.execute(1, c).unwrap());
    let first = a.next().await.unwrap().unwrap();
    drop(plan);
    let mut got = values(&first);
    while let Some(x) = a.next().await { got.extend(values(&x.unwrap())); }
    let mut other = vec![];
    while let Some(x) = b.next().await { other.extend(values(&x.unwrap())); }
    assert_eq!(got, want); assert_eq!(other, want);
}
''')
mkbug("union-rewrite-weights","C04",[("src/execution_plans/children_isolator_union.rs","""        Ok(Arc::new(Self::from_children_and_weights(
            children,
            self.child_weights.clone(),
            self.task_idx_map.len(),
        )?))""","""        // Weigh the new children by the tasks the previous ones were given.
        let weights = self
            .child_task_counts()
            .into_iter()
            .zip(self.child_weights.iter())
            .map(|(count, prev)| ChildWeight {
                weight: count as f64,
                max: prev.max,
            });
        Ok(Arc::new(Self::from_children_and_weights(
            children,
            weights,
            self.task_idx_map.len(),
        )?))""")],
"a union with more children than tasks, so that some children share a task, rebuilt with the same children",
"the children that had been packed for lack of weight are weighed like the others, so the assignment changes when the plan is rewritten, while other tasks still follow the previous one",
PRE+'''
use datafusion_distributed::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec};
fn main() {
    for ws in [vec![1.0, 2.0, 3.0], vec![1.0, 5.0, 1.0], vec![0.0, 1.0], vec![1.0, 10.0], vec![3.0, 1.0, 1.0, 9.0]] {
        for tasks in 1..=4 {
            let ch: Vec<_> = ws.iter().map(|_| Rows::new(vec![vec![1]])).collect();
            let u = Arc::new(ChildrenIsolatorUnionExec::from_children_and_weights(ch.clone(), ws.iter().map(|w| ChildWeight { weight: *w, max: None }), tasks).unwrap());
            let again = (u.clone() as Arc<dyn ExecutionPlan>).with_new_children(ch).unwrap();
            let again = again.downcast_ref::<ChildrenIsolatorUnionExec>().unwrap();
            assert_eq!(u.task_idx_map, again.task_idx_map, "weights {ws:?}, {tasks} tasks");
        }
    }
}
''')
