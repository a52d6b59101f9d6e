//! C10: planning that adapts the number of tasks to what the stages below report.
use super::e2e::*;
use crate::*;
use std::sync::Arc;

/// Leaf that reports how many rows it pulled and estimates how many there are.
fn d(t: &Table, wait: usize, stats: Option<usize>) -> P { let (w, p) = (wait == 1, wait == 2); if stats.is_none() { Arc::new(Data { wait: w, pause: p, ..Data::new(t.clone()) }) } else { Arc::new(Data { wait: w, pause: p, ..counting(t, stats) }) } }
fn shape(k: usize, a: impl Fn() -> P, b: impl Fn() -> P, c: Cfg) {
    match k {
        0 => check(c, || group(a(), 2), None, Cmp::Rows), 1 => check(c, || sort(a(), None), None, Cmp::Order), 2 => check(c, || count(group(a(), 2)), None, Cmp::Rows),
        3 => check(c, || hash_join(a(), b(), join_type(3), 2), None, Cmp::Rows), 4 => check(c, || collect_join(a(), b(), join_type(2), false), None, Cmp::Rows),
        5 => check(c, || limit(group(a(), 2), 0, Some(2)), Some(group(a(), 2)), Cmp::Limited), 6 => check(c, || collect_join(b(), collect_join(a(), b(), join_type(0), false), join_type(0), false), None, Cmp::Rows),
        7 => check(c, || sort(group(group(a(), 2), 3), Some(2)), None, Cmp::Order),
        _ => check(c, || datafusion::physical_plan::union::UnionExec::try_new(vec![count(a()), group(b(), 2)]).unwrap(), None, Cmp::Rows),
    }
}
//# prop=C10 tier=quick bounds="group by, order by, count of groups, outer joins, limits, chained joins, ordered groups of groups, unions over 2 tables of 1..2 partitions and 2 rows, every key 0..1; 1..2 tasks per scan, 1..3 workers; 1 byte or 1 MiB per partition" covers="distributed,rows returned,stage of several tasks" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c10_queries() {
    let mut id = 0; let a = table(&mut id, 2, 1, 1); let b = table(&mut id, 1, 2, 0);
    let c = Cfg { dynamic: true, leaf_tasks: nd::pick(1, 2), workers: nd::pick(1, 3), bytes_per_partition: if nd::bool() { 1 } else { 1 << 20 }, ..Cfg::default() };
    shape(nd::pick(0, 8), || d(&a, 0, None), || d(&b, 0, None), c);
}
//# prop=C10 tier=quick bounds="group by, order by, count of groups and joins over 2 partitions of 0..3 rows; leaves that pause first, midway or never and report any progress; leaf estimates of none, 0, 1, 5 or the largest number of rows; 1 byte or 1 MiB per partition; 2 workers" covers="distributed,rows returned,stage of several tasks" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c10_reports() {
    let mut id = 0; let a = table(&mut id, 2, nd::pick(0, 3), 0); let b = table(&mut id, 1, 2, 0);
    let c = Cfg { dynamic: true, leaf_tasks: 1, workers: 2, bytes_per_partition: if nd::bool() { 1 } else { 1 << 20 }, ..Cfg::default() };
    let wait = nd::pick(0, 2); let stats = [None, Some(0), Some(1), Some(5), Some(usize::MAX)][nd::pick(0, 4)];
    shape(nd::pick(0, 4), || d(&a, wait, stats), || d(&b, wait, stats), c);
}
