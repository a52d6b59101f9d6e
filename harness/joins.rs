//! C06: joins return what the single-node plan returns.
use super::e2e::*;
use datafusion::common::JoinType;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::joins::SortMergeJoinExec;

use std::sync::Arc;

fn smj(l: P, r: P, t: JoinType) -> P { Arc::new(SortMergeJoinExec::model(sort_parts(hash(l, 2)), sort_parts(hash(r, 2)), vec![(col(), col())], t)) }
fn sort_parts(p: P) -> P { Arc::new(datafusion::physical_plan::sorts::sort::SortExec::new(ordering(), p).with_preserve_partitioning(true)) }
/// Two tables of one row per partition; keys only matter by equality, so the first one is fixed.
fn tables(l: usize, r: usize) -> (Table, Table) { let mut id = 0; let mut a = table(&mut id, l, 1, 1); a[0][0] = 1 << 8; let b = table(&mut id, r, 1, 1); (a, b) }
fn few_parts() -> (Table, Table) { match nd::pick(0, 2) { 0 => tables(1, 2), 1 => tables(2, 1), _ => tables(2, 2) } }

//# prop=C06 tier=quick bounds="hash-partitioned joins of all 10 types; 1..2 partitions of 1 row each side, any keys; 2 tasks per scan" covers="distributed,rows returned" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c06_partitioned() {
    let t = join_type(nd::pick(0, 9)); let (l, r) = tables(2, nd::pick(1, 2));
    check(Cfg::default(), || hash_join(data(&l), data(&r), t, 2), None, Cmp::Rows)
}
//# prop=C06 tier=quick bounds="joins of all 10 types that collect their build side, also null-aware; broadcast joins on or off; 1..2 partitions of 1 row each side, any keys; 2 tasks per scan" covers="distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c06_collect() {
    let c = Cfg { broadcast: nd::bool(), ..Cfg::default() };
    let k = nd::pick(0, 10); let t = join_type(if k == 10 { 6 } else { k }); let (l, r) = few_parts();
    check(c, || collect_join(data(&l), data(&r), t, k == 10), None, Cmp::Rows)
}
//# prop=C06 tier=quick bounds="nested loop joins of all 10 types and cross joins; broadcast joins on or off; 1..2 partitions of 1 row each side, any keys; 1..2 tasks per scan" covers="distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c06_loop() {
    let c = Cfg { broadcast: nd::bool(), leaf_tasks: nd::pick(1, 2), ..Cfg::default() };
    let k = nd::pick(0, 10); let (l, r) = few_parts();
    if k == 10 { check(c, || cross_join(data(&l), data(&r)), None, Cmp::Rows) } else { check(c, || loop_join(data(&l), data(&r), join_type(k)), None, Cmp::Rows) }
}
//# prop=C06 tier=quick bounds="sort merge joins of all 10 types; 2 partitions of 1 row on the left, 1 on the right, any keys; 2 tasks per scan" covers="distributed,rows returned" shards=3
#[unsafe(no_mangle)] pub extern "C" fn h_c06_merge() {
    let t = join_type(nd::pick(0, 9)); let (l, r) = tables(2, 1);
    check(Cfg::default(), || smj(data(&l), data(&r), t), None, Cmp::Rows)
}
//# prop=C06 tier=quick bounds="build sides that are limited (fetch 0..3 of 4 rows, in the node or by a limit below it), aggregated, ordered with fetch, joined or unioned; broadcast joins on or off; 2 tasks per scan" covers="distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c06_build_sides() {
    let c = Cfg { broadcast: nd::bool(), ..Cfg::default() };
    let mut id = 0; let l = table(&mut id, 2, 2, 0); let r = table(&mut id, 2, 1, 0);
    let k = nd::pick(0, 6); let f = nd::pick(0, 3); if k > 3 && f > 0 { return; }
    let cut = |p: P| -> P { match k { 0 => limit(p, 0, Some(f)), 1 => limit(p, 1, Some(f)), 2 => one_partition(p).with_fetch(Some(f)).unwrap(), 3 => sort(p, Some(f)), 4 => count(p), 5 => group(p, 2), _ => collect_join(p, data(&r), JoinType::Inner, false) } };
    let j = |p: P| -> P { if nd_flip() { collect_join(p, data(&r), JoinType::Inner, false) } else { cross_join(p, data(&r)) } };
    unsafe { FLIP = nd::bool(); }
    if k < 3 { check(c, || j(cut(data(&l))), Some(j(data(&l))), Cmp::Limited) } else { check(c, || j(cut(data(&l))), None, Cmp::Rows) }
}
static mut FLIP: bool = false; fn nd_flip() -> bool { unsafe { FLIP } }
//# prop=C06 tier=quick bounds="joins on top of joins and below aggregations, orderings and limits (partitioned, collected, both), 2 partitions of 1 row, equal keys; broadcast joins on or off; 1..3 tasks per scan, 1..2 workers" covers="distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c06_nested() {
    let c = Cfg { broadcast: nd::bool(), leaf_tasks: nd::pick(1, 3), workers: nd::pick(1, 2), ..Cfg::default() };
    let mut id = 0; let (x, y, z) = (table(&mut id, 2, 1, 0), table(&mut id, 2, 1, 0), table(&mut id, 1, 1, 0)); let t = JoinType::Inner;
    match nd::pick(0, 6) {
        0 => check(c, || collect_join(data(&x), collect_join(data(&z), data(&y), t, false), t, false), None, Cmp::Rows),
        1 => check(c, || hash_join(collect_join(data(&x), data(&y), t, false), data(&z), t, 2), None, Cmp::Rows),
        2 => check(c, || collect_join(hash_join(data(&x), data(&z), t, 2), data(&y), t, false), None, Cmp::Rows),
        3 => check(c, || count(collect_join(data(&x), data(&y), t, false)), None, Cmp::Rows),
        4 => check(c, || group(hash_join(data(&x), data(&y), JoinType::Full, 2), 2), None, Cmp::Rows),
        5 => check(c, || sort(collect_join(data(&x), data(&y), t, false), Some(3)), None, Cmp::Order),
        _ => check(c, || collect_join(data(&z), hash_join(data(&x), data(&y), JoinType::Left, 2), JoinType::Right, false), None, Cmp::Rows),
    }
}
//# prop=C06 tier=thorough bounds="hash-partitioned, collected and nested loop joins of all 10 types, cross joins; broadcast joins on or off; 1..2 partitions of 1 row each side, any keys; 1..3 tasks per scan" covers="distributed,rows returned" shards=21 depth=6
#[unsafe(no_mangle)] pub extern "C" fn h_c06_types() {
    let c = Cfg { leaf_tasks: nd::pick(1, 3), workers: 3, broadcast: nd::bool(), ..Cfg::default() };
    let k = nd::pick(0, 3); let (l, r) = tables(nd::pick(1, 2), nd::pick(1, 2));
    if k == 3 { check(c, || cross_join(data(&l), data(&r)), None, Cmp::Rows); return; }
    let t = join_type(nd::pick(0, 9));
    match k { 0 => check(c, || hash_join(data(&l), data(&r), t, 2), None, Cmp::Rows), 1 => check(c, || collect_join(data(&l), data(&r), t, false), None, Cmp::Rows), _ => check(c, || loop_join(data(&l), data(&r), t), None, Cmp::Rows) }
}
