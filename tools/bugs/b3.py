import sys; sys.path.insert(0,'/verif/tools/bugs')
from mkbug import mkbug
from sql import sql, SQL
exec(open('/verif/tools/bugs/b1.py').read().split("mkbug(")[0].split("import mkbug\n")[-1])   # PRE
only=sys.argv[1:]
def bug(id,*a):
    if not only or id in only: mkbug(id,*a)
bug("same-authority","C11",[("src/worker/worker_connection_pool.rs","Some(lw) if lw.self_url == target_url => {","Some(lw) if lw.self_url.authority() == target_url.authority() => {")],
"two workers behind one host and port that differ in the path of their URLs, with local worker contexts",
"a task that reads from another worker behind the same gateway asks its own process, which does not have that task",
sql('''files();
    struct Cluster(Arc<std::sync::OnceLock<Vec<Worker>>>);
    fn url(i: usize) -> url::Url { url::Url::parse(&format!("http://gateway:9000/w{i}")).unwrap() }
    #[async_trait::async_trait]
    impl ChannelResolver for Cluster {
        async fn get_worker_client_for_url(&self, u: &url::Url) -> datafusion::error::Result<Box<dyn WorkerChannel>> { let i = if u == &url(0) { 0 } else { 1 }; Ok(Box::new(protocol::in_process::InProcessWorkerClient::new(self.0.get().unwrap()[i].clone()))) }
    }
    struct Urls; impl WorkerResolver for Urls { fn get_urls(&self) -> datafusion::error::Result<Vec<url::Url>> { Ok((0..2).map(url).collect()) } }
    let workers: Arc<std::sync::OnceLock<Vec<Worker>>> = Default::default();
    let mk = |i: usize| { let ws = Arc::clone(&workers); Worker::from_session_builder(DefaultSessionBuilder.map(move |b: datafusion::execution::SessionStateBuilder| { let me = ws.get().unwrap()[i].clone(); Ok(b.with_distributed_channel_resolver(Cluster(Arc::clone(&ws))).with_distributed_local_worker_context(me.to_local_worker_context(url(i))).build()) })) };
    let _ = workers.set(vec![mk(0), mk(1)]);
    let mut b = datafusion::execution::SessionStateBuilder::new().with_default_features().with_distributed_planner().with_distributed_worker_resolver(Urls).with_distributed_channel_resolver(Cluster(Arc::clone(&workers)));
    { let cfg = b.config().get_or_insert_default(); *cfg = cfg.clone().with_target_partitions(2); cfg.set_distributed_file_scan_config_bytes_per_partition(10).unwrap(); }
    let ctx = SessionContext::from(b.build()); tables(&ctx).await;
    let plain = SessionContext::new(); tables(&plain).await;
    let q = "select w, count(*) as n from b group by w order by w";
    let e = rows(&plain.sql(q).await.unwrap().collect().await.unwrap());
    match tokio::time::timeout(std::time::Duration::from_secs(60), ctx.sql(q).await.unwrap().collect()).await { Err(_) => ok = false, Ok(Err(e)) => { println!("ERR {e}"); ok = false; } Ok(Ok(r)) => { ok &= rows(&r) == e; } }'''))
bug("feed-early-reader","C13",[("src/worker/impl_coordinator_channel.rs","""                                work_unit_senders.remove(&(id, partition));
                                continue;""","""                                // The reader is gone.
                                work_unit_senders.remove(&(id, partition));
                                break;""")],
"a task in which one partition stops reading its feed while units for others arrive in the same batch",
"the rest of a batch of work units is thrown away when the reader of one of its partitions has gone",
PRE+'''
#[derive(Clone, PartialEq, ::prost::Message)] struct Unit { #[prost(uint64, tag = "1")] v: u64 }
#[derive(Debug, Clone)] struct Units;
impl WorkUnitFeedProvider for Units { type WorkUnit = Unit; fn feed(&self, _p: usize, _c: Arc<TaskContext>) -> Result<BoxStream<'static, Result<Unit>>> { unreachable!() } }
#[derive(Debug, Clone)] struct Feed { feed: WorkUnitFeed<Units>, props: Arc<PlanProperties> }
impl DisplayAs for Feed { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Feed") } }
impl ExecutionPlan for Feed {
    fn name(&self) -> &str { "Feed" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<datafusion::common::tree_node::TreeNodeRecursion>) -> Result<datafusion::common::tree_node::TreeNodeRecursion> { Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { Ok(Box::pin(RecordBatchStreamAdapter::new(schema(), self.feed.feed(p, c)?.map(|u| u.map(|u| batch(u.v as i64)))))) }
}
#[tokio::main]
async fn main() {
    let id = uuid::Uuid::from_u128(5);
    let props = Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(3), EmissionType::Incremental, Boundedness::Bounded));
    let leaf: Arc<dyn ExecutionPlan> = Arc::new(Feed { feed: WorkUnitFeed::from_proto(WorkUnitFeedProto { id: id.as_bytes().to_vec() }).unwrap(), props });
    let w = Worker::default(); let ctx = SessionContext::new().task_ctx(); let key = TaskKey { query_id: QUERY, stage_id: 1, task_number: 0 };
    let mut ch: Box<dyn WorkerChannel> = Box::new(protocol::in_process::InProcessWorkerClient::new(w.clone()));
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<CoordinatorToWorkerMsg>();
    let req = SetPlanRequest { task_key: key, task_count: 1, plan: MaybeEncoded::Decoded(leaf), work_unit_feed_declarations: vec![WorkUnitFeedDeclaration { id, partitions: 3 }], target_worker_url: url(0), query_start_time_ns: 0 };
    let back = ch.coordinator_channel(Default::default(), req, Box::pin(tokio_stream::wrappers::UnboundedReceiverStream::new(rx)), ExecutionPlanMetricsSet::new(), &ctx).await.unwrap();
    let mut s = ch.execute_task(Default::default(), ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: 3, producer_head: ProducerHead::None }, ExecutionPlanMetricsSet::new(), &ctx).await.unwrap();
    let unit = |p: usize, v: u64| WorkUnitMsg { id, partition: p, body: MaybeEncoded::Decoded(Box::new(Unit { v })), created_timestamp_unix_nanos: 0, sent_timestamp_unix_nanos: 0, received_timestamp_unix_nanos: 0, processed_timestamp_unix_nanos: 0 };
    let send = |b: Vec<WorkUnitMsg>| { let _ = tx.send(CoordinatorToWorkerMsg::WorkUnitBatch(WorkUnitBatch { batch: b })); };
    send(vec![unit(0, 1), unit(1, 2)]);
    assert_eq!(values(&s[0].next().await.unwrap().unwrap()), vec![1]);
    drop(s.remove(0));                                   // partition 0 has read enough
    send(vec![unit(1, 3), unit(0, 4), unit(1, 5), unit(2, 6)]);
    let _ = tx.send(CoordinatorToWorkerMsg::WorkUnitEos);
    let mut got = vec![];
    for p in 0..2 { let v: Vec<RecordBatch> = tokio::time::timeout(std::time::Duration::from_secs(30), s.remove(0).try_collect::<Vec<_>>()).await.expect("ends").unwrap(); got.push(v.iter().flat_map(values).collect::<Vec<_>>()); }
    println!("{got:?}"); drop(back);
    std::process::exit((got != vec![vec![2, 3, 5], vec![6]]) as i32);
}
''')
EXT='''files();
    #[derive(Clone, Debug)] struct Opt { foo: String }
    impl Default for Opt { fn default() -> Self { Opt { foo: "preset".to_string() } } }
    impl datafusion::config::ExtensionOptions for Opt {
        fn as_any(&self) -> &dyn std::any::Any { self } fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self } fn cloned(&self) -> Box<dyn datafusion::config::ExtensionOptions> { Box::new(self.clone()) }
        fn set(&mut self, k: &str, v: &str) -> datafusion::error::Result<()> { assert_eq!(k, "foo"); self.foo = v.to_string(); Ok(()) }
        fn entries(&self) -> Vec<datafusion::config::ConfigEntry> { vec![datafusion::config::ConfigEntry { key: "foo".to_string(), value: Some(self.foo.clone()), description: "" }] }
    }
    impl datafusion::config::ConfigExtension for Opt { const PREFIX: &'static str = "custom"; }
    for want in ["x", "", "a b", " "] {
        let seen: Arc<std::sync::Mutex<Vec<String>>> = Default::default(); let s2 = Arc::clone(&seen);
        #[derive(Clone)] struct Build(Arc<std::sync::Mutex<Vec<String>>>);
        #[async_trait::async_trait] impl WorkerSessionBuilder for Build { async fn build_session_state(&self, ctx: WorkerQueryContext) -> datafusion::error::Result<datafusion::execution::SessionState> {
            let s = ctx.builder.with_distributed_option_extension_from_headers::<Opt>(&ctx.headers)?.build(); self.0.lock().unwrap().push(s.config().options().extensions.get::<Opt>().unwrap().foo.clone()); Ok(s) } }
        let ctx = start_in_memory_context(2, Build(s2)).await;
        let mut b = datafusion::execution::SessionStateBuilder::new_from_existing(ctx.state());
        { let cfg = b.config().get_or_insert_default(); *cfg = cfg.clone().with_target_partitions(2); cfg.set_distributed_file_scan_config_bytes_per_partition(10).unwrap(); cfg.set_distributed_option_extension(Opt { foo: want.to_string() }); }
        let ctx = SessionContext::from(b.build()); tables(&ctx).await;
        let r = ctx.sql("select w, count(*) as n from b group by w order by w").await.unwrap().collect().await; ok &= r.is_ok();
        let v = seen.lock().unwrap().clone(); println!("{want:?} {v:?}"); ok &= v.len() > 0 && v.iter().all(|s| s == want);
    }'''
bug("config-similar-prefix","C15",[("src/config_extension_ext.rs","if !prefixes_to_send.prefixes.contains(&prefix) {","if !prefixes_to_send.prefixes.iter().any(|v| prefix.starts_with(v)) {")],
"an extension that is not registered for propagation, whose prefix starts with the prefix of one that is",
"options of an extension that is private to the coordinator are sent to the workers and change their sessions",
sql(EXT.split("    for want in")[0]+'''
    #[derive(Clone, Debug)] struct Private { foo: String }
    impl Default for Private { fn default() -> Self { Private { foo: "preset".to_string() } } }
    impl datafusion::config::ExtensionOptions for Private {
        fn as_any(&self) -> &dyn std::any::Any { self } fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self } fn cloned(&self) -> Box<dyn datafusion::config::ExtensionOptions> { Box::new(self.clone()) }
        fn set(&mut self, k: &str, v: &str) -> datafusion::error::Result<()> { self.foo = v.to_string(); Ok(()) }
        fn entries(&self) -> Vec<datafusion::config::ConfigEntry> { vec![datafusion::config::ConfigEntry { key: "foo".to_string(), value: Some(self.foo.clone()), description: "" }] }
    }
    impl datafusion::config::ConfigExtension for Private { const PREFIX: &'static str = "customer"; }
    #[derive(Clone)] struct Build(Arc<std::sync::Mutex<Vec<String>>>);
    #[async_trait::async_trait] impl WorkerSessionBuilder for Build { async fn build_session_state(&self, ctx: WorkerQueryContext) -> datafusion::error::Result<datafusion::execution::SessionState> {
        let s = ctx.builder.with_distributed_option_extension_from_headers::<Private>(&ctx.headers)?.build(); self.0.lock().unwrap().push(s.config().options().extensions.get::<Private>().unwrap().foo.clone()); Ok(s) } }
    let seen: Arc<std::sync::Mutex<Vec<String>>> = Default::default();
    let ctx = start_in_memory_context(2, Build(Arc::clone(&seen))).await;
    let mut b = datafusion::execution::SessionStateBuilder::new_from_existing(ctx.state());
    { let cfg = b.config().get_or_insert_default(); *cfg = cfg.clone().with_target_partitions(2).with_option_extension(Private { foo: "secret".to_string() }); cfg.set_distributed_file_scan_config_bytes_per_partition(10).unwrap(); cfg.set_distributed_option_extension(Opt { foo: "x".to_string() }); }
    let ctx = SessionContext::from(b.build()); tables(&ctx).await;
    let r = ctx.sql("select w, count(*) as n from b group by w order by w").await.unwrap().collect().await; ok &= r.is_ok();
    let v = seen.lock().unwrap().clone(); println!("{v:?}"); ok &= v.len() > 0 && v.iter().all(|s| s == "preset");'''))
bug("headers-all-reserved","C15",[("src/passthrough_headers.rs","""    for name in headers.keys() {
        if name.as_str().starts_with(FLIGHT_METADATA_CONFIG_PREFIX) {
            return Err(""","""    let reserved = |name: &http::HeaderName| name.as_str().starts_with(FLIGHT_METADATA_CONFIG_PREFIX);
    if let Some(name) = headers.keys().next() {
        if headers.keys().all(reserved) {
            return Err(""")],
"several headers to pass through, of which some but not all have the reserved prefix",
"headers of the reserved prefix are accepted and overwrite the options of the session on the workers",
SQL.replace("@@",'''
    let mut h = http::HeaderMap::new(); h.insert("x-first", "1".parse().unwrap()); h.insert("x-datafusion-distributed-config-distributed.shuffle_batch_size", "7".parse().unwrap());
    let mut c = SessionConfig::new(); ok &= c.set_distributed_passthrough_headers(h).is_err();
    let mut h = http::HeaderMap::new(); h.insert("x-first", "1".parse().unwrap()); h.insert("y-datafusion", "7".parse().unwrap());
    ok &= c.set_distributed_passthrough_headers(h).is_ok();'''))
MET='''files();
    let ctx = start_in_memory_context(2, DefaultSessionBuilder).await;
    let mut b = datafusion::execution::SessionStateBuilder::new_from_existing(ctx.state());
    { let cfg = b.config().get_or_insert_default(); *cfg = cfg.clone().with_target_partitions(2); cfg.set_distributed_file_scan_config_bytes_per_partition(10).unwrap(); cfg.set_distributed_metrics_collection(true).unwrap(); cfg.set_distributed_children_isolator_unions(true).unwrap(); }
    let ctx = SessionContext::from(b.build()); tables(&ctx).await;
    fn text(p: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> String { display_plan_ascii(p.as_ref(), true) }
'''
bug("metrics-child-label","C14",[("src/metrics/task_metrics_rewriter.rs","stage.plan.apply_with_dt_ctx(d_ctx, |node, _ctx| {","stage.plan.apply_with_dt_ctx(d_ctx, |node, node_ctx| {"),
 ("src/metrics/task_metrics_rewriter.rs","format.to_rewrite_ctx(task_id as u64);","format.to_rewrite_ctx(node_ctx.task_index as u64);")],
"per-task metrics of a stage with a union whose children are spread over its tasks",
"the metrics of the children of a union spread over tasks are labelled with the wrong task",
sql(MET+'''
    let p = ctx.sql("select v from a union all select v from b").await.unwrap().create_physical_plan().await.unwrap();
    let _ = collect(Arc::clone(&p), ctx.task_ctx()).await.unwrap();
    let q = rewrite_distributed_plan_with_metrics(Arc::clone(&p), DistributedMetricsFormat::PerTask).await.unwrap();
    println!("{}", text(&q));
    // Which tasks the union ran in, and which the metrics of its children are labelled with.
    use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
    let mut n = std::collections::BTreeSet::new(); let mut tasks = 0;
    fn labels(p: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> std::collections::BTreeSet<String> { let mut s = std::collections::BTreeSet::new(); if let Some(m) = p.metrics() { for x in m.iter() { for l in x.labels() { if l.name().contains("task") { s.insert(l.value().to_string()); } } } } s }
    q.apply(|p| { if let Some(b) = p.as_network_boundary() { let Stage::Local(s) = b.input_stage() else { panic!() }; tasks = s.tasks; s.plan.apply(|x| { println!("{} {:?}", x.name(), labels(x)); if x.children().is_empty() || x.name().contains("DistributedLeaf") { n.extend(labels(x)); } Ok(TreeNodeRecursion::Continue) }).unwrap(); } Ok(TreeNodeRecursion::Continue) }).unwrap();
    println!("{tasks} {n:?}"); ok &= tasks > 1 && n.len() == tasks;'''))
