//! C08, C09: a query whose work fails fails; a query that ends, whatever the way, leaves nothing behind.
use super::e2e::*;
use super::util::*;
use crate::*;
use datafusion::common::Result;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use std::sync::Arc;
use tokio::rt;

/// Queries that read every row of every scan.
fn shape(k: usize, a: P, b: P) -> P {
    match k { 0 => group(a, 2), 1 => sort(a, None), 2 => hash_join(a, b, join_type(0), 2), 3 => collect_join(a, b, join_type(2), false), 4 => UnionExec::try_new(vec![count(a), group(b, 2)]).unwrap(), _ => a }
}
fn run(c: Cfg, p: P, sc: Sched) -> Result<Option<Vec<datafusion::arrow::array::RecordBatch>>> {
    let s = session(c, p);
    let p = plan(&s)?;
    drive(&p, s.task_ctx(), sc)
}
fn rows(v: Vec<datafusion::arrow::array::RecordBatch>) -> Vec<u64> { tag_list(&v) }

//# prop=C08 tier=quick bounds="a scan that fails after its rows, on either side of 6 query shapes; scans that wait or not; 1..2 tasks per scan, 1..2 workers" covers="failed" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c08_leaf_fails() { leaf_fails(2, 0, false) }
//# prop=C08 tier=thorough bounds="as in quick; woken tasks run in any order that departs once from the round robin" covers="failed" shards=56 depth=7
#[unsafe(no_mangle)] pub extern "C" fn h_c08_leaf_fails_any_order() { leaf_fails(2, 1, false) }
fn leaf_fails(max: usize, dev: usize, dynamic: bool) {
    let mut id = 0; let a = table(&mut id, 2, 1, 0); let b = table(&mut id, 2, 1, 0);
    let c = Cfg { leaf_tasks: nd::pick(1, max), workers: nd::pick(1, max), dynamic, ..Cfg::default() };
    let k = nd::pick(0, 5); let left = nd::bool(); let (wa, wb) = (nd::bool(), nd::bool());
    if !left && (k < 2 || k > 4) { return; }
    let x: P = Arc::new(Data { fail: left, wait: wa, ..Data::new(a) }); let y: P = Arc::new(Data { fail: !left, wait: wb, ..Data::new(b) });
    match run(c, shape(k, x, y), Sched { dev, ..Sched::default() }) {
        Ok(_) => panic!("the failure of a scan fails the query"),
        Err(_) => nd::cover("failed"),
    }
    abandoned();
}
//# prop=C08 tier=quick bounds="any one of the first 41 operations on a connection to a worker (opening, sending a plan, reading a partition) fails, under 5 query shapes; 2 tasks per scan, 2 workers" covers="failed,unharmed" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c08_network_fails() { network_fails(0, false, false) }
//# prop=C08 tier=thorough bounds="as in quick; woken tasks run in any order that departs once from the round robin" covers="failed,unharmed" shards=56 depth=7
#[unsafe(no_mangle)] pub extern "C" fn h_c08_network_fails_any_order() { network_fails(1, false, false) }
fn network_fails(dev: usize, wait: bool, dynamic: bool) {
    let mut id = 0; let a = table(&mut id, 2, 1, 0); let b = table(&mut id, 2, 1, 0);
    let c = Cfg { leaf_tasks: 2, workers: 2, dynamic, ..Cfg::default() };
    let k = nd::pick(0, 4); let at = nd::pick(0, 40);
    let all = rows(collect(&shape(k, data(&a), data(&b)), Arc::new(datafusion::execution::TaskContext::default())).unwrap());
    unsafe { FAIL_HOP = at; }
    let x: P = Arc::new(Data { wait, ..Data::new(a) }); let y: P = Arc::new(Data { wait, ..Data::new(b) });
    match run(c, shape(k, x, y), Sched { dev, ..Sched::default() }) {
        Ok(v) => { assert!(unsafe { HOPS } <= at, "a failed exchange fails the query"); assert!(same_rows(&rows(v.unwrap()), &all)); nd::cover("unharmed"); }
        Err(_) => nd::cover("failed"),
    }
    abandoned();
}
//# prop=C09 tier=quick bounds="the consumer goes away after any of the first 40 scheduling steps of 6 query shapes; scans that wait or not; 1..2 tasks per scan, 2 workers" covers="consumer gone early" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c09_cancel() { cancel(2, 40, 0, false) }
//# prop=C09 tier=thorough bounds="as in quick; woken tasks run in any order that departs once from the round robin" covers="consumer gone early" shards=56 depth=7
#[unsafe(no_mangle)] pub extern "C" fn h_c09_cancel_any_order() { cancel(2, 40, 1, false) }
fn cancel(tasks: usize, steps: usize, dev: usize, dynamic: bool) {
    let mut id = 0; let a = table(&mut id, 2, 2, 0); let b = table(&mut id, 2, 1, 0);
    let c = Cfg { leaf_tasks: nd::pick(1, tasks), workers: 2, dynamic, ..Cfg::default() };
    let k = nd::pick(0, 5); let wait = nd::bool(); let drop_at = nd::pick(0, steps);
    let x: P = Arc::new(Data { wait, ..Data::new(a) }); let y: P = Arc::new(Data { wait, ..Data::new(b) });
    match run(c, shape(k, x, y), Sched { drop_at, dev, gives_up: false }) { Ok(_) => {} Err(e) => panic!("nothing failed: {e}") }
    abandoned();
}
//# prop=C08 tier=quick bounds="adaptive planning: a scan that fails after its rows, on either side of 6 query shapes; scans that wait or not; 1..2 tasks per scan, 1..2 workers" covers="failed" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c08_adaptive_leaf_fails() { leaf_fails(2, 0, true) }
//# prop=C08 tier=quick bounds="adaptive planning: any one of the first 41 operations on a connection to a worker fails, under 5 query shapes; 2 tasks per scan, 2 workers" covers="failed,unharmed" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c08_adaptive_network_fails() { network_fails(0, false, true) }
//# prop=C09 tier=quick bounds="adaptive planning: the consumer goes away after any of the first 40 scheduling steps of 6 query shapes; scans that wait or not; 1..2 tasks per scan, 2 workers" covers="consumer gone early" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c09_adaptive_cancel() { cancel(2, 40, 0, true) }
//# prop=C09 tier=quick bounds="6 query shapes over scans of which either or both say nothing after 0..1 rows per partition, given up when nothing can run; adaptive planning or not; 1..2 tasks per scan, 2 workers" covers="consumer gone early" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c09_silent_scans() {
    let mut id = 0; let a = table(&mut id, 2, nd::pick(0, 1), 0); let b = table(&mut id, 2, 1, 0);
    let c = Cfg { leaf_tasks: nd::pick(1, 2), dynamic: nd::bool(), ..Cfg::default() };
    let k = nd::pick(0, 5); let (ha, hb) = (nd::bool(), nd::bool()); if !ha && !hb { return; }
    let x: P = Arc::new(Data { hangs: ha, ..Data::new(a) }); let y: P = Arc::new(Data { hangs: hb, ..Data::new(b) });
    match run(c, shape(k, x, y), Sched { gives_up: true, ..Sched::default() }) { Ok(_) => {} Err(e) => panic!("nothing failed: {e}") }
    abandoned();
}
