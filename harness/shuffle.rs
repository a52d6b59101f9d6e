//! C02: hash boundary; C03: broadcast boundary.
use super::util::*;
use crate::*;
use datafusion::physical_expr::Partitioning;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::physical_plan::empty::EmptyExec;
use std::sync::Arc;

fn hash(n: usize) -> Partitioning { Partitioning::Hash(vec![], n) }
fn shuffle(p: usize, n: usize) -> NetworkShuffleExec { NetworkShuffleExec::try_new(Arc::new(RepartitionExec::try_new(Arc::new(EmptyExec::new(schema())), hash(p)).unwrap()), n).unwrap() }
fn bcast(p: usize, m: usize, n: usize) -> NetworkBroadcastExec { NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(Arc::new(EmptyExec::new(schema()).with_partitions(p)), m)), n).unwrap() }

/// Every (consumer task, partition) reads its own slot of every producer; together they read every
/// slot of every producer exactly once.
fn all_slots(broadcast: bool, max_n: usize, max_m: usize, max_p: usize) {
    let (n, m, p) = (nd::pick(1, max_n), nd::pick(1, max_m), nd::pick(1, max_p));
    let mut seen = [[0u8; 64]; 8];
    let mut total = 0;
    let mut t = 0;
    while t < m {
        let node: Arc<dyn NetworkBoundary> = if broadcast { bcast(p, 1, n).with_input_stage(remote_stage(n)).unwrap() } else { shuffle(p, n).with_input_stage(remote_stage(n)).unwrap() };
        let ctx = consumer_ctx(t, m);
        let out = node.properties().output_partitioning().partition_count();
        total += out;
        let mut q = 0;
        while q < out {
            let got = tags(&mut node.execute(q, Arc::clone(&ctx)).unwrap());
            assert!(got.len() == n, "an output partition reads one slot of every producer");
            let slot = got[0] % 256;
            for g in &got { assert!(g % 256 == slot, "the same slot of every producer"); seen[g / 256][g % 256] += 1; }
            q += 1;
        }
        t += 1;
    }
    let mut bad = false;
    let mut w = 0; while w < n { let mut q = 0; while q < total { if seen[w][q] != 1 { bad = true; } q += 1; } w += 1; }
    assert!(!bad, "every slot of every producer is read exactly once");
    for r in reqs() { assert!(r.head == if broadcast { 1 } else { 2 } && r.head_n == total && r.end <= total && r.task == r.worker, "the producer is asked for exactly the slots that will be read"); }
    assert!(reqs().len() == n * m, "one request per producer and consumer task");
    if n > 1 && m > 1 { nd::cover("many to many"); }
}
//# prop=C02 tier=quick bounds="1..4 producer tasks, 1..4 consumer tasks, 1..3 partitions" covers="many to many" weight=4
#[unsafe(no_mangle)] pub extern "C" fn h_c02_slots() { all_slots(false, 4, 4, 3) }
//# prop=C02 tier=thorough bounds="1..7 producer tasks, 1..7 consumer tasks, 1..6 partitions" covers="many to many"
#[unsafe(no_mangle)] pub extern "C" fn h_c02_slots_deep() { all_slots(false, 7, 7, 6) }
//# prop=C03 tier=quick bounds="1..4 producer tasks, 1..4 consumer tasks, 1..3 partitions" covers="many to many" weight=4
#[unsafe(no_mangle)] pub extern "C" fn h_c03_slots() { all_slots(true, 4, 4, 3) }
//# prop=C03 tier=thorough bounds="1..7 producer tasks, 1..7 consumer tasks, 1..6 partitions" covers="many to many"
#[unsafe(no_mangle)] pub extern "C" fn h_c03_slots_deep() { all_slots(true, 7, 7, 6) }

/// Real workers in process: rows with arbitrary keys, spread over the partitions of every producer
/// task, are shuffled to all consumer tasks.
fn flow(kind: u8, max_n: usize, max_m: usize, max_p: usize, max_lp: usize) {
    let (n, m, p, lp) = (nd::pick(1, max_n), nd::pick(1, max_m), nd::pick(1, max_p), nd::pick(1, max_lp));
    // one row per producer task and leaf partition: tag = unique id * 256 + key
    let mut keys = [[0usize; 4]; 4]; let mut i = 0;
    while i < n { let mut j = 0; while j < lp { keys[i][j] = if kind == 0 { nd::range(0, 3) } else { 0 }; j += 1; } i += 1; }
    let leaf = |t: usize| { let mut s = Vec::new(); let mut j = 0; while j < lp { s.push(vec![Ev::Batch((1 + t * 4 + j) * 256 + keys[t][j])]); j += 1; } Leaf::new(t, s) };
    let head = |l: Arc<dyn ExecutionPlan>| -> Arc<dyn ExecutionPlan> { match kind { 0 => Arc::new(RepartitionExec::try_new(l, hash(p)).unwrap()), 1 => Arc::new(BroadcastExec::new(l, 1)), _ => l } };
    start_cluster(n, |t| head(leaf(t)));
    let mut count = [[0u8; 20]; 4]; let mut place = [usize::MAX; 16]; let mut split = false;
    let mut t = 0;
    while t < m {
        let node: Arc<dyn NetworkBoundary> = match kind {
            0 => NetworkShuffleExec::try_new(head(leaf(0)), n).unwrap().with_input_stage(remote_stage(n)).unwrap(),
            1 => NetworkBroadcastExec::try_new(head(leaf(0)), n).unwrap().with_input_stage(remote_stage(n)).unwrap(),
            _ => NetworkCoalesceExec::try_new(leaf(0), n, m).unwrap().with_input_stage(remote_stage(n)).unwrap() };
        let ctx = cluster_ctx(t, m);
        let out = node.properties().output_partitioning().partition_count();
        let mut q = 0;
        while q < out {
            for g in tags(&mut node.execute(q, Arc::clone(&ctx)).unwrap()) {
                let (id, key) = (g / 256, g % 256);
                count[t][id] += 1;
                if kind == 0 { let at = t * 16 + q; if place[key] == usize::MAX { place[key] = at; } else if place[key] != at { split = true; } }
            }
            q += 1;
        }
        t += 1;
    }
    let (mut lost, mut i) = (false, 0);
    while i < n { let mut j = 0; while j < lp { let id = 1 + i * 4 + j; let mut sum = 0; t = 0; while t < m { if kind == 1 && count[t][id] != 1 { lost = true; } sum += count[t][id]; t += 1; } if kind != 1 && sum != 1 { lost = true; } assert!(executed(i, j) == 1, "every producer partition is executed exactly once"); j += 1; } i += 1; }
    assert!(!lost, "every row is delivered exactly once");
    assert!(!split, "rows with equal keys reach the same consumer partition");
    nd::cover("delivered");
}
//# prop=C02 tier=quick bounds="1..2 producer tasks (1..2 partitions, one row each, any of 4 keys), 1..2 consumer tasks, 1..2 partitions; real workers in process" covers="delivered" weight=6
#[unsafe(no_mangle)] pub extern "C" fn h_c02_flow() { flow(0, 2, 2, 2, 2) }
//# prop=C03 tier=quick bounds="1..3 producer tasks of 1..2 partitions, 1..3 consumer tasks; real workers in process" covers="delivered" weight=6
#[unsafe(no_mangle)] pub extern "C" fn h_c03_flow() { flow(1, 3, 3, 1, 2) }
//# prop=C01 tier=quick bounds="1..3 producer tasks of 1..3 partitions, 1..3 consumer tasks; real workers in process" covers="delivered" weight=6
#[unsafe(no_mangle)] pub extern "C" fn h_c01_flow() { flow(2, 3, 3, 1, 3) }
