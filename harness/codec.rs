//! C12: plans survive being sent as bytes.
use super::e2e::*;
use super::queries::*;
use super::util::*;
use crate::common::MaybeEncoded;
use crate::execution_plans::*;
use crate::stage::*;
use crate::*;
use datafusion::execution::TaskContext;
use datafusion::physical_expr::Partitioning;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use std::sync::Arc;
use url::Url;
use uuid::Uuid;

//# prop=C12 tier=quick bounds="scan, group, count of groups, top 3, broadcast join of groups, partitioned join, union of mixed children over 2 partitions of 1 row, every key 0..1; 1..3 tasks, 2..3 workers; plans, stages and partitionings sent as bytes" covers="distributed,rows returned,plan sent as bytes" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c12_queries() {
    let mut id = 0; let t = table(&mut id, 2, 1, 1); let k = nd::pick(0, 6);
    let c = Cfg { wire: true, leaf_tasks: nd::pick(1, 3), workers: nd::pick(2, 3), ..Cfg::default() };
    match k {
        0 => check(c.clone(), || data(&t), None, Cmp::Rows), 1 => check(c.clone(), || group(data(&t), 2), None, Cmp::Rows), 2 => check(c.clone(), || count(group(data(&t), 2)), None, Cmp::Rows), 3 => check(c.clone(), || sort(data(&t), Some(3)), None, Cmp::Order),
        4 => check(c.clone(), || count(collect_join(data(&t), group(data(&t), 2), join_type(0), false)), None, Cmp::Rows), 5 => check(c.clone(), || hash_join(data(&t), data(&t), join_type(1), 2), None, Cmp::Rows),
        _ => check(c.clone(), || datafusion::physical_plan::union::UnionExec::try_new(vec![data(&t), group(data(&t), 2), count(data(&t))]).unwrap(), None, Cmp::Rows),
    }
}

/// What a plan becomes on the other side of the wire.
fn sent(p: P, ctx: &Arc<TaskContext>) -> P {
    let b = match MaybeEncoded::Decoded(p).encode(ctx) { Ok(b) => b, Err(_) => panic!("a plan of the library is encoded") };
    nd::cover("plan encoded"); match MaybeEncoded::<P>::Encoded(b).decode(ctx) { Ok(p) => p, Err(_) => panic!("an encoded plan is decoded") }
}
fn ctx() -> Arc<TaskContext> { let s = session(Cfg::default(), Arc::new(Data::new(vec![vec![]]))); s.task_ctx() }
fn parts(p: &Partitioning) -> (usize, usize, usize) { match p { Partitioning::RoundRobinBatch(n) => (1, *n, 0), Partitioning::Hash(e, n) => (2, *n, e.len()), Partitioning::UnknownPartitioning(n) => (3, *n, 0), _ => (4, 0, 0) } }
fn partitioning(n: usize) -> Partitioning { match nd::pick(0, 1) { 0 => Partitioning::Hash(if nd::bool() { vec![col(), col()] } else { vec![col()] }, n), _ => Partitioning::UnknownPartitioning(n) } }
fn remote() -> RemoteStage { let mut workers = Vec::new(); let n = nd::pick(0, 2); while workers.len() < n { workers.push(Url::n(nd::pick(0, 2))); } RemoteStage { query_id: Uuid::from_u64_pair(nd::u64(), nd::u64()), num: nd::u64() as usize, workers, runtime_stats: None } }
fn same_stage(a: &RemoteStage, p: &P) {
    let Some(b) = p.as_network_boundary() else { panic!("a boundary stays a boundary") };
    let Stage::Remote(b) = b.input_stage() else { panic!("a stage that runs elsewhere stays there") };
    assert!(a.query_id == b.query_id, "query"); assert!(a.num == b.num, "stage number"); assert!(a.workers.len() == b.workers.len(), "tasks"); let mut i = 0; while i < a.workers.len() { assert!(a.workers[i] == b.workers[i], "each task keeps its worker"); i += 1; }
}
//# prop=C12 tier=quick bounds="every kind of network boundary over a stage of 0..2 remote tasks, each on any of 3 workers; any stage number, query id and number of partitions" covers="plan encoded" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c12_boundaries() {
    let ctx = ctx(); let st = remote(); let n = nd::u64() as usize; let of = partitioning(n);
    let base = Data::new(vec![vec![]]).props; let pr = Arc::new(base.as_ref().clone().with_partitioning(of.clone()));
    let p: P = match nd::pick(0, 1) { 0 => Arc::new(NetworkShuffleExec::from_stage(Stage::Remote(st.clone()), pr)), _ => Arc::new(NetworkBroadcastExec::from_stage(Stage::Remote(st.clone()), pr)) };
    let want = parts(p.output_partitioning()); let q = sent(p.clone(), &ctx);
    assert!(q.is::<NetworkShuffleExec>() == p.is::<NetworkShuffleExec>() && q.is::<NetworkBroadcastExec>() == p.is::<NetworkBroadcastExec>(), "same kind of boundary");
    let got = parts(q.output_partitioning()); assert!(want.0 == got.0, "kind of partitioning"); assert!(want.1 == got.1, "number of partitions"); assert!(want.2 == got.2, "columns hashed");
    same_stage(&st, &q);
}
//# prop=C12 tier=quick bounds="1..2 tasks of 0..2 children each; any child index, task index, number of tasks, number of partitions or cap, one of them at a time; 5 weights" covers="plan encoded" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c12_union() {
    let ctx = ctx(); let tasks = nd::pick(1, 2); let mut map = Vec::new(); let field = nd::pick(0, 4); let used = std::cell::Cell::new(false); let small = std::cell::Cell::new(1);
    let wide = |k: usize| if k == field && !used.get() { used.set(true); nd::u64() as usize } else { small.set(small.get() + 1); small.get() };
    while map.len() < tasks { let mut v = Vec::new(); let n = nd::pick(0, 2); while v.len() < n { v.push((wide(0), DistributedTaskContext { task_index: wide(1), task_count: wide(2) })); } map.push(v); }
    let cap = if nd::bool() { Some(wide(3)) } else { None }; let ws = [1.0f64, 2.5, f64::MAX, 1e-300, 0.0]; let (w0, w1) = (ws[nd::pick(0, 4)].to_bits(), 3.0f64.to_bits()); let count = wide(4);
    let (a, b): (P, P) = (Arc::new(Data::new(vec![vec![1 << 8]])), Arc::new(Data::new(vec![vec![2 << 8], vec![]])));
    let base = Data::new(vec![vec![]]).props; let pr = Arc::new(base.as_ref().clone().with_partitioning(Partitioning::UnknownPartitioning(count)));
    let p: P = Arc::new(ChildrenIsolatorUnionExec { properties: pr, metrics: Default::default(), children: vec![a, b], child_weights: vec![ChildWeight { weight: f64::from_bits(w0), max: cap }, ChildWeight { weight: f64::from_bits(w1), max: None }], task_idx_map: map.clone() });
    let q = sent(p, &ctx); let Some(u) = q.downcast_ref::<ChildrenIsolatorUnionExec>() else { panic!("a union stays a union") };
    assert!(u.properties.partitioning.partition_count() == count, "number of partitions"); assert!(u.children.len() == 2 && u.child_weights.len() == 2 && u.children[0].output_partitioning().partition_count() == 1 && u.children[1].output_partitioning().partition_count() == 2, "children in order");
    assert!(u.child_weights[0].weight.to_bits() == w0 && u.child_weights[1].weight.to_bits() == w1, "weights"); assert!(u.child_weights[0].max == cap && u.child_weights[1].max.is_none(), "caps");
    assert!(u.task_idx_map.len() == tasks, "tasks"); let mut i = 0; while i < tasks { assert!(u.task_idx_map[i].len() == map[i].len(), "children of a task"); let mut j = 0; while j < map[i].len() { let (x, y) = (&map[i][j], &u.task_idx_map[i][j]); assert!(x.0 == y.0, "child"); assert!(x.1.task_index == y.1.task_index, "task index"); assert!(x.1.task_count == y.1.task_count, "number of tasks"); j += 1; } i += 1; }
}
//# prop=C12 tier=quick bounds="coalescing boundaries over 0..2 remote tasks, boundaries over local stages of 1..3 tasks, broadcasts to 1..3 tasks, samplers, nested in each other; any query id and stage number" covers="plan encoded" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c12_nested() {
    let ctx = ctx(); let leaf: P = Arc::new(Data::new(vec![vec![1 << 8], vec![2 << 8]]));
    match nd::pick(0, 3) {
        0 => { let st = remote(); let pr = leaf.properties().clone(); let cap = nd::pick(1, 3); let p: P = match NetworkCoalesceExec::try_from_stage(Stage::Remote(st.clone()), pr, cap) { Ok(p) => Arc::new(p), Err(_) => return }; let n = p.output_partitioning().partition_count(); let q = sent(p, &ctx); assert!(q.is::<NetworkCoalesceExec>(), "same kind of boundary"); assert!(q.output_partitioning().partition_count() == n, "number of partitions"); same_stage(&st, &q) }
        1 => { let (num, tasks, id) = (nd::u64() as usize, nd::pick(1, 3), Uuid::from_u64_pair(nd::u64(), nd::u64())); let st = Stage::Local(LocalStage { query_id: id, num, plan: leaf.clone(), tasks, metrics_set: Default::default() }); let p: P = Arc::new(NetworkShuffleExec::from_stage(st, leaf.properties().clone()));
            let q = sent(p, &ctx); let Some(b) = q.as_network_boundary() else { panic!("a boundary stays a boundary") }; let Stage::Local(l) = b.input_stage() else { panic!("a stage still to run keeps its plan") };
            assert!(l.query_id == id && l.num == num, "stage"); assert!(l.tasks == tasks, "tasks"); assert!(l.plan.is::<Data>() && l.plan.output_partitioning().partition_count() == 2, "plan of the stage") }
        2 => { let n = nd::pick(1, 3); let p: P = Arc::new(BroadcastExec::new(leaf, n)); let k = p.output_partitioning().partition_count(); let q = sent(p, &ctx); let Some(b) = q.downcast_ref::<BroadcastExec>() else { panic!("a broadcast stays a broadcast") }; assert!(b.consumer_task_count() == n && b.input().is::<Data>() && q.output_partitioning().partition_count() == k, "broadcast to as many tasks") }
        _ => { let p: P = Arc::new(SamplerExec::new(Arc::new(BroadcastExec::new(leaf, 2)))); let q = sent(p, &ctx); assert!(q.is::<SamplerExec>() && q.children().len() == 1 && q.children()[0].is::<BroadcastExec>() && q.children()[0].children()[0].is::<Data>(), "nodes in order") }
    }
}
