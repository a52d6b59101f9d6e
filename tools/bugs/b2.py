import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mkbug; from sql import sql
P="src/distributed_planner/"; N="src/execution_plans/"
only=sys.argv[1:]
def bug(id,*a):
    if not only or id in only: mkbug(id,*a)
bug("joins-limited-build","C06",[(P+"normalize_collect_joins.rs","""        && coalesce.fetch().is_none()
    {
        coalesce.input()""","""        && (coalesce.fetch().is_none() || join.join_type() == &JoinType::LeftAnti)
    {
        coalesce.input()""")] ,
"a CollectLeft hash anti join whose build side carries a LIMIT over several partitions",
"the limit of the build side is thrown away together with the coalesce when the join is repartitioned, so build rows past the limit are emitted",
sql('ok &= run("select count(*) from (select v from b limit 5) s left anti join a on s.v = a.v + 100000", 3, 3, |c| { }).await;'))
bug("reduce-finished-groups","C05",[(P+"partial_reduce_below_network_shuffles.rs","if *agg.mode() != AggregateMode::Partial {","if matches!(agg.mode(), AggregateMode::Final | AggregateMode::Single) {")],
"partial reduction enabled and a finished aggregation directly below another shuffle",
"a finished aggregation below a shuffle is reduced again as if its output were partial states",
sql('ok &= run("select * from (select w, avg(v) from b group by w) q left join b on q.\\"avg(b.v)\\" = b.v", 3, 3, |c| { c.options_mut().optimizer.hash_join_single_partition_threshold = 0; c.options_mut().optimizer.hash_join_single_partition_threshold_rows = 0; c.set_distributed_partial_reduce(true).unwrap(); }).await;'))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b1.py")).read().split("mkbug(")[0].split("import mkbug\n")[-1])   # PRE
bug("union-limited-child","C07",[(P+"inject_network_boundaries.rs","                        Maximum(n) => Ok(ChildWeight::maximum(n)),","                        Maximum(n) => Ok(ChildWeight::desired(n as f64)),")],
"a union of children that are limited to one task, in a stage with more tasks than that because of its other operators",
"the children's caps become mere weights, so a child that has to run in a single task is run by several and its rows come out several times",
sql('ok &= run("select count(*) from b cross join ((select v from a limit 3) union all (select v from a limit 2)) u", 3, 4, |c| { c.set_distributed_broadcast_joins(true).unwrap(); }).await;'))
bug("sampler-swallows-error","C08",[(N+"sampler.rs","""            for batch in batches {
                peek.push(batch?);
            }""","""            for batch in batches {
                // Sampling is best effort: errors are reported while executing.
                let Ok(batch) = batch else { break };
                peek.push(batch);
            }""")],
"adaptive planning on, and a scan whose error is among the batches that are ready when it is sampled",
"the error found while sampling is taken off the stream and never reported, so the query succeeds with rows missing",
PRE+'''
/// Yields a row and then fails.
#[derive(Debug, Clone)] struct Failing { props: Arc<PlanProperties> }
impl DisplayAs for Failing { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Failing") } }
impl ExecutionPlan for Failing {
    fn name(&self) -> &str { "Failing" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>) -> Result<datafusion::common::tree_node::TreeNodeRecursion> { Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let s = futures::stream::iter(vec![Ok(batch(1)), Err(datafusion::error::DataFusionError::Execution("scan".into()))]);
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema(), s)))
    }
}
#[tokio::main]
async fn main() {
    let leaf = Arc::new(Failing { props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(1), EmissionType::Incremental, Boundedness::Bounded)) });
    let plan: Arc<dyn ExecutionPlan> = Arc::new(execution_plans::SamplerExec::new(leaf));
    let c = SessionContext::new().task_ctx();
    let _load = execution_plans::SamplerExec::kick_off_first_sampler(Arc::clone(&plan), Arc::clone(&c)).unwrap();
    let r: Result<Vec<RecordBatch>> = plan.execute(0, c).unwrap().try_collect().await;
    assert!(r.is_err(), "{r:?}");
}
''')
bug("sampler-outlives-query","C09",[(N+"sampler.rs","        let task = SpawnedTask::spawn(async move {","        #[allow(clippy::disallowed_methods)]\n        let task = tokio::spawn(async move {")],
"adaptive planning on, and a query that is dropped while a stage is being sampled and its scan has nothing ready yet",
"the sampling task is detached instead of being tied to its plan, so the scan of a cancelled query stays open for as long as its source says nothing",
PRE+'''
/// Never yields anything, and tells when its stream is dropped.
#[derive(Debug, Clone)] struct Silent { open: Arc<()>, props: Arc<PlanProperties> }
impl DisplayAs for Silent { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Silent") } }
impl ExecutionPlan for Silent {
    fn name(&self) -> &str { "Silent" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>) -> Result<datafusion::common::tree_node::TreeNodeRecursion> { Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let open = Arc::clone(&self.open);
        let s = futures::stream::pending::<Result<RecordBatch>>().inspect(move |_| { let _ = &open; });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema(), s)))
    }
}
#[tokio::main]
async fn main() {
    let open = Arc::new(());
    {
        let leaf = Arc::new(Silent { open: Arc::clone(&open), props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(1), EmissionType::Incremental, Boundedness::Bounded)) });
        let plan: Arc<dyn ExecutionPlan> = Arc::new(execution_plans::SamplerExec::new(leaf));
        let c = SessionContext::new().task_ctx();
        let load = execution_plans::SamplerExec::kick_off_first_sampler(Arc::clone(&plan), Arc::clone(&c)).unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        drop((plan, load));
    }
    for _ in 0..100 { if Arc::strong_count(&open) == 1 { return; } tokio::time::sleep(std::time::Duration::from_millis(20)).await; }
    panic!("the scan is still open");
}
''')
bug("adaptive-unbounded-tasks","C10",[("src/coordinator/prepare_dynamic_plan.rs","                .clamp(1, nb_ctx.max_tasks()?);","                .max(1);")],
"adaptive planning on, and a stage whose estimated compute asks for more tasks than max_tasks_per_stage or the cluster allows",
"the number of tasks derived from the cost of a stage is no longer capped, so a large stage gets more tasks than the configured maximum",
sql('''use std::sync::atomic::{AtomicUsize, Ordering};
    static MAX: AtomicUsize = AtomicUsize::new(0);
    ok &= run("select w, count(*) from b group by w", 2, 4, |c| { c.set_distributed_dynamic_task_count(true).unwrap(); c.set_distributed_max_tasks_per_stage(2).unwrap(); c.set_distributed_dynamic_bytes_per_partition(1).unwrap();
        c.set_distributed_route_tasks_handler(|ev: RouteTasksEvent| -> Option<datafusion::error::Result<RouteTasksEventResponse>> { MAX.fetch_max(ev.task_count, Ordering::SeqCst); None }); }).await;
    println!("most tasks {}", MAX.load(Ordering::SeqCst));
    ok &= (1..=2).contains(&MAX.load(Ordering::SeqCst));'''))
bug("same-host","C11",[("src/worker/worker_connection_pool.rs","Some(lw) if lw.self_url == target_url => {","Some(lw) if lw.self_url.host() == target_url.host() => {")],
"two workers on the same host (different ports), with local worker contexts",
"a task that reads from another worker of the same host asks its own process, which does not have that task",
sql('''files();
    struct Cluster(Arc<std::sync::OnceLock<Vec<Worker>>>);
    #[async_trait::async_trait]
    impl ChannelResolver for Cluster {
        async fn get_worker_client_for_url(&self, url: &url::Url) -> datafusion::error::Result<Box<dyn WorkerChannel>> { Ok(Box::new(protocol::in_process::InProcessWorkerClient::new(self.0.get().unwrap()[url.port().unwrap() as usize - 9000].clone()))) }
    }
    struct Urls; impl WorkerResolver for Urls { fn get_urls(&self) -> datafusion::error::Result<Vec<url::Url>> { Ok((0..2).map(|i| url::Url::parse(&format!("http://localhost:{}", 9000 + i)).unwrap()).collect()) } }
    let workers: Arc<std::sync::OnceLock<Vec<Worker>>> = Default::default();
    let mk = |i: usize| { let ws = Arc::clone(&workers); Worker::from_session_builder(DefaultSessionBuilder.map(move |b: datafusion::execution::SessionStateBuilder| { let me = ws.get().unwrap()[i].clone(); Ok(b.with_distributed_channel_resolver(Cluster(Arc::clone(&ws))).with_distributed_local_worker_context(me.to_local_worker_context(url::Url::parse(&format!("http://localhost:{}", 9000 + i)).unwrap())).build()) })) };
    let _ = workers.set(vec![mk(0), mk(1)]);
    let mut b = datafusion::execution::SessionStateBuilder::new().with_default_features().with_distributed_planner().with_distributed_worker_resolver(Urls).with_distributed_channel_resolver(Cluster(Arc::clone(&workers)));
    { let cfg = b.config().get_or_insert_default(); *cfg = cfg.clone().with_target_partitions(2); cfg.set_distributed_file_scan_config_bytes_per_partition(10).unwrap(); }
    let ctx = SessionContext::from(b.build()); tables(&ctx).await;
    let plain = SessionContext::new(); tables(&plain).await;
    let q = "select w, count(*) as n from b group by w order by w";
    let e = rows(&plain.sql(q).await.unwrap().collect().await.unwrap());
    match ctx.sql(q).await.unwrap().collect().await { Err(e) => { println!("ERR {e}"); ok = false; } Ok(r) => { ok &= rows(&r) == e; } }'''))
bug("stage-workers-unique","C12",[("src/codec/distributed_codec.rs","                    for worker in &remote.workers {","                    for worker in remote.workers.iter().unique() {")],
"a stage with two tasks on the same worker, read by a stage that is itself sent to a worker as bytes",
"a worker that runs several tasks of the stage is listed once, so the reader believes the stage has fewer tasks and sends others to the wrong worker",
PRE+'''
#[tokio::main]
async fn main() {
    let st = Stage::Remote(stage::RemoteStage { query_id: QUERY, num: 1, workers: vec![url(0), url(1), url(0), url(2)], runtime_stats: None });
    let node: Arc<dyn ExecutionPlan> = NetworkCoalesceExec::try_new(Rows::new(vec![vec![], vec![]]), 4, 1).unwrap().with_input_stage(st).unwrap();
    let c = SessionContext::new().task_ctx();
    let b = codec::encode_execution_plan(node, &c).unwrap();
    let n = codec::decode_execution_plan(&b, &c).unwrap();
    let n = n.downcast_ref::<NetworkCoalesceExec>().unwrap();
    let Stage::Remote(r) = n.input_stage() else { panic!() };
    assert_eq!(r.workers, vec![url(0), url(1), url(0), url(2)]);
}
''')
bug("feed-of-isolated-child","C13",[("src/coordinator/query_coordinator.rs","            let start_partition = partitions * d_ctx.task_index;","            let start_partition = partitions * task_i;")],
"a work unit feed below a union whose children are spread over the tasks of its stage",
"the feed partitions of a task are taken from the index of the task in the stage instead of the index among the tasks of that child, so units go missing",
sql('''use datafusion_distributed::test_utils::test_work_unit_feed::*;
    async fn build(ctx: WorkerQueryContext) -> datafusion::error::Result<datafusion::execution::SessionState> { Ok(ctx.builder.with_distributed_user_codec(TestWorkUnitFeedExecCodec).build()) }
    let mut ctx = start_in_memory_context(3, build).await;
    ctx.set_distributed_work_unit_feed(|p: &RowGeneratorExec| Some(&p.feed));
    ctx.set_distributed_user_codec(TestWorkUnitFeedExecCodec);
    ctx.set_distributed_desired_task_count_handler(row_generator_desired_task_count_handler);
    ctx.set_distributed_scale_up_leaf_node_handler(row_generator_scale_up_leaf_node_handler);
    ctx.set_distributed_children_isolator_unions(true).unwrap();
    ctx.register_udtf("test_work_unit", Arc::new(TestWorkUnitFeedFunction));
    let r = ctx.sql("select count(*) as n from (select tag from test_work_unit('x', 1, 'rows(1)', 'rows(2)') union all select tag from test_work_unit('y', 2, 'rows(10)', 'rows(20)', 'rows(40)', 'rows(80)')) where tag <> ''").await.unwrap().collect().await;
    match r { Err(e) => { println!("ERR {e}"); ok = false; } Ok(r) => { let t = datafusion::arrow::util::pretty::pretty_format_batches(&r).unwrap().to_string(); println!("{t}"); ok &= t.contains("153"); } }'''))
bug("cost-absent-child","C19",[("src/distributed_planner/statistics/cost.rs","""        (Some(one), None) => Precision::Inexact(*one),
        (None, Some(other)) => Precision::Inexact(*other),
        (None, None) => Precision::Absent,""","""        // A sum with an unknown term is unknown.
        _ => Precision::Absent,""")],
"a stage with a node or child whose estimates are absent next to others that have them",
"one absent estimate makes the cost of the whole stage absent, so it costs less than its parts and is planned for a single task",
PRE+'''
use datafusion::physical_plan::{Statistics, ColumnStatistics, union::UnionExec};
#[derive(Debug)] struct Known { rows: Option<usize>, props: Arc<PlanProperties> }
impl DisplayAs for Known { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Known") } }
impl ExecutionPlan for Known {
    fn name(&self) -> &str { "Known" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>) -> Result<datafusion::common::tree_node::TreeNodeRecursion> { Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { unreachable!() }
    fn statistics_from_inputs(&self, _i: &[Arc<Statistics>], _a: &datafusion::physical_plan::StatisticsArgs) -> Result<Arc<Statistics>> {
        use datafusion::common::stats::Precision::*;
        let mut s = Statistics::new_unknown(&schema());
        if let Some(r) = self.rows { s.num_rows = Inexact(r); s.total_byte_size = Inexact(8 * r); s.column_statistics[0].byte_size = Inexact(8 * r); }
        Ok(Arc::new(s))
    }
}
fn known(rows: Option<usize>) -> Arc<dyn ExecutionPlan> { Arc::new(Known { rows, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(1), EmissionType::Incremental, Boundedness::Bounded)) }) }
fn sorted(p: Arc<dyn ExecutionPlan>) -> Arc<dyn ExecutionPlan> {
    use datafusion::physical_expr::{LexOrdering, PhysicalSortExpr};
    Arc::new(datafusion::physical_plan::sorts::sort::SortExec::new(LexOrdering::new(vec![PhysicalSortExpr::new_default(col("v", &schema()).unwrap())]).unwrap(), p))
}
fn main() {
    let cpu = |p: &Arc<dyn ExecutionPlan>| distributed_planner::calculate_cost(p).unwrap().cpu.get_value().copied().unwrap_or(0);
    let part = sorted(known(Some(1000)));
    let whole: Arc<dyn ExecutionPlan> = UnionExec::try_new(vec![Arc::clone(&part), sorted(known(None))]).unwrap();
    println!("{} {}", cpu(&part), cpu(&whole));
    assert!(cpu(&part) > 0 && cpu(&whole) >= cpu(&part));
}
''')
