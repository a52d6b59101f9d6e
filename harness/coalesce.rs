//! C01: gather boundary reads every producer partition exactly once.
use super::util::*;
use crate::*;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::physical_plan::empty::EmptyExec;
use std::sync::Arc;

/// Any producer-task count, consumer-task count and partition count up to the bounds. Every consumer
/// task executes every output partition; each (producer task, partition) must be read exactly once.
fn all_reads(max_in: usize, max_out: usize, max_p: usize) {
    let (n, m, p) = (nd::pick(1, max_in), nd::pick(1, max_out), nd::pick(1, max_p));
    let mut seen = [[0u8; 16]; 16];
    let mut widths = [0usize; 16];
    let mut t = 0;
    while t < m {
        let node = NetworkCoalesceExec::try_new(Arc::new(EmptyExec::new(schema()).with_partitions(p)), n, m).unwrap();
        let node = node.with_input_stage(remote_stage(n)).unwrap();
        let ctx = consumer_ctx(t, m);
        let out = node.properties().output_partitioning().partition_count();
        widths[t] = out;
        let mut q = 0;
        while q < out {
            let got = tags(&mut node.execute(q, Arc::clone(&ctx)).unwrap());
            assert!(got.len() <= 1, "one output partition reads at most one producer partition");
            if got.is_empty() { nd::cover("padding"); }
            for g in got { seen[g / 256][g % 256] += 1; }
            q += 1;
        }
        t += 1;
    }
    let (mut w, mut bad) = (0, false);
    while w < n { let mut q = 0; while q < p { if seen[w][q] != 1 { bad = true; } q += 1; } w += 1; }
    assert!(!bad, "every producer partition is read exactly once across all consumer tasks");
    t = 0; while t < m { assert!(widths[t] == widths[0], "all tasks of a stage have the same shape"); t += 1; }
    for r in reqs() { assert!(r.head == 0 && r.start == 0 && r.end == p && r.task == r.worker, "requests cover exactly the producer's partitions"); }
    if n > m { nd::cover("several producers per consumer"); } else if n < m { nd::cover("more consumers than producers"); }
}
//# prop=C01 tier=quick bounds="1..5 producer tasks, 1..5 consumer tasks, 1..3 partitions; all consumer tasks and partitions" covers="padding,several producers per consumer,more consumers than producers" weight=5
#[unsafe(no_mangle)] pub extern "C" fn h_c01_all() { all_reads(5, 5, 3) }
//# prop=C01 tier=thorough bounds="1..10 producer tasks, 1..10 consumer tasks, 1..5 partitions; all consumer tasks and partitions" covers="padding"
#[unsafe(no_mangle)] pub extern "C" fn h_c01_all_deep() { all_reads(10, 10, 5) }

/// Two arbitrary reads of larger clusters never meet, and a read never leaves the producers.
fn two_reads(max_in: usize, max_out: usize, max_p: usize) {
    let (n, m, p) = (nd::pick(1, max_in), nd::pick(1, max_out), nd::pick(1, max_p));
    let read = |t: usize, q: usize| {
        let node = NetworkCoalesceExec::try_new(Arc::new(EmptyExec::new(schema()).with_partitions(p)), n, m).unwrap();
        let node = node.with_input_stage(remote_stage(n)).unwrap();
        let out = node.properties().output_partitioning().partition_count();
        nd::assume(q < out);
        tags(&mut node.execute(q, consumer_ctx(t, m)).unwrap())
    };
    let (t1, t2) = (nd::below(m), nd::below(m));
    let (q1, q2) = (nd::range(0, max_in * max_p), nd::range(0, max_in * max_p));
    nd::assume(t1 < t2 || (t1 == t2 && q1 < q2));
    let (a, b) = (read(t1, q1), read(t2, q2));
    for x in &a { assert!(x / 256 < n && x % 256 < p); for y in &b { nd::cover("both read"); assert!(x != y, "two consumer partitions read the same producer partition"); } }
}
//# prop=C01 tier=quick bounds="1..4 producer tasks, 1..4 consumer tasks, 1..2 partitions; two arbitrary reads" covers="both read"
#[unsafe(no_mangle)] pub extern "C" fn h_c01_pair() { two_reads(4, 4, 2) }

/// A context whose task index is outside the stage is refused.
//# prop=C01 tier=quick bounds="any task index and count below 2^16, 1..3 producers"
#[unsafe(no_mangle)] pub extern "C" fn h_c01_bad_ctx() {
    let n = nd::range(1, 3); let (i, c) = (nd::u16() as usize, nd::u16() as usize);
    nd::assume(i >= c);
    let node = NetworkCoalesceExec::try_new(Arc::new(EmptyExec::new(schema())), n, 1).unwrap().with_input_stage(remote_stage(n)).unwrap();
    assert!(node.execute(0, consumer_ctx(i, c)).is_err());
    assert!(NetworkCoalesceExec::try_new(Arc::new(EmptyExec::new(schema())), n, 0).is_err());
}
