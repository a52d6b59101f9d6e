//! C05: scans, aggregations, orderings, limits and windows return what the single-node plan returns.
use super::e2e::*;
use datafusion::physical_plan::repartition::RepartitionExec; use datafusion::physical_expr::Partitioning;
use datafusion::physical_plan::windows::WindowAggExec;
use std::sync::Arc;

/// Cluster sizes: tasks per leaf, workers.
pub fn cfg() -> Cfg { let w = nd::pick(1, 3); let t = nd::pick(1, 3); Cfg { workers: w, leaf_tasks: t, ..Cfg::default() } }
pub fn tab(id: &mut u64, rows: usize) -> Table { table(id, nd::pick(1, 2), rows, 1) }
pub fn win(p: P, keyed: bool) -> P { if keyed { let p = if p.output_partitioning().partition_count() > 1 { hash(p, 2) } else { p }; Arc::new(WindowAggExec::model(p, vec![col()])) } else { Arc::new(WindowAggExec::model(one_partition(p), vec![])) } }
use datafusion::physical_plan::ExecutionPlanProperties;

//# prop=C05 tier=quick bounds="scans of 1..2 partitions of 2 rows with every key 0..1; 1..3 tasks, 1..3 workers; plain, grouped, counted, ordered, top 0..3, windows" covers="distributed,rows returned" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c05_single() {
    let mut id = 0; let t = tab(&mut id, 2); let c = cfg();
    let k = nd::pick(0, 6); let n = if k == 4 { nd::pick(0, 3) } else { 0 };
    match k {
        0 => check(c, || data(&t), None, Cmp::Rows), 1 => check(c, || group(data(&t), 2), None, Cmp::Rows), 2 => check(c, || count(data(&t)), None, Cmp::Rows),
        3 => check(c, || sort(data(&t), None), None, Cmp::Order), 4 => check(c, || sort(data(&t), Some(n)), None, Cmp::Order), 5 => check(c, || win(data(&t), true), None, Cmp::Rows), _ => check(c, || win(data(&t), false), None, Cmp::Rows),
    }
}
//# prop=C05 tier=quick bounds="1..2 partitions of 2 rows; offset 0..2, limit none or 3; 1..3 tasks, 1..3 workers" covers="distributed,rows returned"
#[unsafe(no_mangle)] pub extern "C" fn h_c05_limit() {
    let mut id = 0; let t = table(&mut id, nd::pick(1, 2), 2, 0); let c = cfg();
    let skip = nd::pick(0, 2); let n = nd::opt(3);
    check(c, || limit(data(&t), skip, n), Some(data(&t)), Cmp::Limited)
}
//# prop=C05 tier=quick bounds="two chained exchanges (group of groups, ordered groups, count of groups, window over groups, grouping sets) over 2 partitions of 1 row, every key 0..1; 1..3 tasks; partial reduction on or off" covers="distributed,rows returned" shards=3
#[unsafe(no_mangle)] pub extern "C" fn h_c05_nested() {
    let mut id = 0; let t = table(&mut id, 2, 1, 1);
    let c = Cfg { leaf_tasks: nd::pick(1, 3), workers: nd::pick(2, 3), partial_reduce: nd::bool(), ..Cfg::default() };
    match nd::pick(0, 6) {
        5 => check(c, || rollup(data(&t), 2), None, Cmp::Rows), 6 => check(c, || sort(rollup(data(&t), 2), None), None, Cmp::Order),
        0 => check(c, || group(group(data(&t), 2), 3), None, Cmp::Rows), 1 => check(c, || sort(group(data(&t), 2), None), None, Cmp::Order), 2 => check(c, || count(group(data(&t), 2)), None, Cmp::Rows),
        3 => check(c, || win(group(data(&t), 2), true), None, Cmp::Rows), _ => check(c, || group(hash(data(&t), 3), 2), None, Cmp::Rows),
    }
}
//# prop=C05 tier=quick bounds="group by and order by over 2 partitions of 1 row in 2 tasks; leaves that wait; woken tasks run in any order that departs once from the round robin" covers="distributed,rows returned" shards=3
#[unsafe(no_mangle)] pub extern "C" fn h_c05_schedules() {
    let mut id = 0; let t = table(&mut id, 2, 1, 0); let c = Cfg::default(); let wait = nd::bool();
    let d = || -> P { Arc::new(Data { wait, ..Data::new(t.clone()) }) };
    let sc = Sched { dev: 1, ..Sched::default() };
    if nd::bool() { check_sched(c, || group(d(), 2), None, Cmp::Rows, sc) } else { check_sched(c, || sort(d(), None), None, Cmp::Order, sc) }
}
//# prop=C05 tier=quick bounds="a scan of up to 2 rows per partition, 1..2 partitions, dealt or hashed to 1..3 partitions and returned, merged, counted or limited; 2..3 tasks on 2 workers; plans sent as bytes or not" covers="distributed,rows returned" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c05_repartitioned() {
    let mut id = 1; let t = table(&mut id, nd::pick(1, 2), 2, 1); let n = nd::pick(1, 3); let even = nd::bool(); let k = nd::pick(0, 4);
    let c = Cfg { leaf_tasks: nd::pick(2, 3), placed: true, wire: nd::bool(), ..Cfg::default() };
    let r = || -> P { if even { Arc::new(RepartitionExec::try_new(data(&t), Partitioning::RoundRobinBatch(n)).unwrap()) } else { hash(data(&t), n) } };
    match k { 0 => check(c, r, None, Cmp::Rows), 1 => check(c, || one_partition(r()), None, Cmp::Rows), 2 => check(c, || count(r()), None, Cmp::Rows), 3 => check(c, || group(r(), 2), None, Cmp::Rows), _ => check(c, || limit(r(), 0, Some(1)), Some(r()), Cmp::Limited) }
}
