//! Query plans of a grammar: every tree of operators up to a size is planned and run, on one node
//! and distributed. The tree, its leaves and the cluster are chosen by the executor.
use super::e2e::*;
use super::queries::win;
use crate::*;
use datafusion::common::JoinType;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::joins::SortMergeJoinExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::execution::TaskContext;
use std::sync::Arc;

/// A query: `Un` and `Bin` name their operator by number.
pub enum T { Leaf(usize, Table), Un(usize, Box<T>), Bin(usize, usize, Box<T>, Box<T>) }
use T::*;
pub const GROUP: usize = 0; pub const COUNT: usize = 1; pub const SORT: usize = 2; pub const TOP: usize = 3; pub const HASH: usize = 4; pub const WIN: usize = 5; pub const WIN_ALL: usize = 6; pub const ROLLUP: usize = 7; pub const FILTER: usize = 8; pub const ONE: usize = 9;
pub const LIMIT: usize = 10; pub const OFFSET: usize = 11; pub const FETCH: usize = 12;
pub const HASH_JOIN: usize = 0; pub const COLLECT: usize = 1; pub const LOOP: usize = 2; pub const CROSS: usize = 3; pub const UNION: usize = 4; pub const MERGE: usize = 5;
/// Two partitions of one row, or one of two.
pub fn leaf() -> T { Leaf(nd::pick(0, 1), vec![]) }
pub fn leaf2() -> T { Leaf(0, vec![]) }
pub fn un(k: usize, t: T) -> T { Un(k, Box::new(t)) }
pub fn bin(k: usize, j: usize, l: T, r: T) -> T { Bin(k, j, Box::new(l), Box::new(r)) }
pub fn any_un(t: T) -> T { un(nd::pick(0, 12), t) }
/// The tree itself or below one more operator.
pub fn maybe_un(t: T) -> T { let k = nd::pick(0, 13); if k > 12 { t } else { un(k, t) } }
/// Any join but a cross join, of any type.
pub fn any_join(l: T, r: T) -> T { let k = nd::pick(0, 3); bin(if k == 3 { MERGE } else { k }, nd::pick(0, 9), l, r) }
/// One of a few joins, or a union.
pub fn some_bin(l: T, r: T) -> T { match nd::pick(0, 4) { 0 => bin(HASH_JOIN, 0, l, r), 1 => bin(COLLECT, 0, l, r), 2 => bin(HASH_JOIN, 3, l, r), 3 => bin(COLLECT, 6, l, r), _ => bin(UNION, 0, l, r) } }
fn limited(t: &T) -> bool { match t { Leaf(..) => false, Un(k, i) => *k >= LIMIT || limited(i), Bin(_, _, l, r) => limited(l) || limited(r) } }
/// Rows: all different, or those of a leaf all the same where a limit would otherwise choose among them.
fn fill(t: &mut T, same: bool, n: &mut u64) { match t {
    Leaf(s, rows) => { let k = *n; *n += 1; let (a, b) = if same { let x = 1 << 8 | if k == 0 { 0 } else { nd::range(0, 1) as u64 }; (x, x) } else { ((2 * k + 1) << 8 | k, (2 * k + 2) << 8 | if k == 0 { nd::range(0, 1) as u64 } else { 1 }) }; *rows = if *s == 0 { vec![vec![a], vec![b]] } else { vec![vec![a, b]] }; }
    Un(_, i) => fill(i, same, n), Bin(_, _, l, r) => { fill(l, same, n); fill(r, same, n); } } }
pub fn build(t: &T) -> P { match t {
    Leaf(_, rows) => data(rows),
    Un(k, i) => { let p = build(i); let n = if p.output_partitioning().partition_count() == 1 { 1 } else { 2 }; match *k {
        GROUP => group(p, n), COUNT => count(p), SORT => sort(p, None), TOP => sort(p, Some(1)), HASH => hash(p, 3), WIN => win(p, true), WIN_ALL => win(p, false), ROLLUP => rollup(p, n),
        FILTER => Arc::new(FilterExec::try_new(col(), p).unwrap()), ONE => one_partition(p), LIMIT => limit(p, 0, Some(1)), OFFSET => limit(p, 1, Some(2)),
        _ => { let p = one_partition(p); p.with_fetch(Some(1)).unwrap_or_else(|| limit(p, 0, Some(1))) } } }
    Bin(k, j, l, r) => { let (l, r, j) = (build(l), build(r), join_type(*j)); match *k {
        HASH_JOIN => hash_join(l, r, j, 2), COLLECT => collect_join(l, r, j, false), LOOP => loop_join(l, r, j), CROSS => cross_join(l, r), UNION => UnionExec::try_new(vec![l, r]).unwrap(),
        _ => { let s = |p: P| -> P { Arc::new(SortExec::new(ordering(), hash(p, 2)).with_preserve_partitioning(true)) }; Arc::new(SortMergeJoinExec::model(s(l), s(r), vec![(col(), col())], j)) } } }
} }
/// Whether every limit takes from rows that are all the same.
fn settled(t: &T) -> bool { match t { Leaf(..) => true, Un(k, i) => settled(i) && (*k < LIMIT || { let v = tag_list(&collect(&build(i), Arc::new(TaskContext::default())).unwrap()); let mut i = 1; while i < v.len() && v[i] == v[0] { i += 1; } i >= v.len() }), Bin(_, _, l, r) => settled(l) && settled(r) } }
/// Runs the query both ways; the answer is one for every way to run it.
pub fn run(c: Cfg, mut t: T) {
    let same = limited(&t); fill(&mut t, same, &mut 0);
    if same && !settled(&t) { nd::cover("more answers than one"); return; }
    let order = matches!(t, Un(SORT | TOP, _));
    check(c, || build(&t), None, if order { Cmp::Order } else { Cmp::Rows })
}
pub fn cluster() -> Cfg { Cfg { workers: 3, placed: true, leaf_tasks: nd::pick(2, 3), ..Cfg::default() } }

//# prop=C05 tier=quick bounds="plans of two of 13 operators (groups, count, orderings with and without fetch, hash exchange, windows, grouping sets, filter, gathering, limits with and without offset) over a leaf of 2 rows in 1..2 partitions; 2..3 tasks per scan, 3 workers" covers="distributed,rows returned" shards=14 depth=2
#[unsafe(no_mangle)] pub extern "C" fn h_c05_programs() { let c = cluster(); run(c, any_un(any_un(leaf()))) }
//# prop=C05 tier=quick bounds="plans of one operator over a join or union, or of a join or union over one operator, of the same 13; partial reduction on or off; 2 rows per leaf; 3 tasks per scan, 3 workers" covers="distributed,rows returned" shards=14 depth=2
#[unsafe(no_mangle)] pub extern "C" fn h_c05_programs_of_two() {
    let c = Cfg { workers: 3, placed: true, leaf_tasks: 3, partial_reduce: nd::bool(), ..Cfg::default() };
    run(c, if nd::bool() { any_un(some_bin(leaf2(), leaf2())) } else { some_bin(any_un(leaf2()), leaf2()) })
}
//# prop=C06 tier=quick bounds="joins of all 10 types (partitioned, collected, nested loop, merge) whose left or right side is any of 13 operators over a scan of 2 rows; broadcast joins on or off; 2 tasks per scan, 3 workers" covers="distributed,rows returned" shards=14 depth=3
#[unsafe(no_mangle)] pub extern "C" fn h_c06_programs() {
    let c = Cfg { workers: 3, placed: true, broadcast: nd::bool(), ..Cfg::default() };
    run(c, if nd::bool() { any_join(any_un(leaf2()), leaf2()) } else { any_join(leaf2(), any_un(leaf2())) })
}
//# prop=C07 tier=quick bounds="unions of any of 13 operators over a scan and a scan, group, count or limit, on their own, below any of these operators or on either side of a collected or cross join; spread over the tasks or not; 3 tasks per scan, 3 workers" covers="distributed,rows returned" shards=14 depth=2
#[unsafe(no_mangle)] pub extern "C" fn h_c07_programs() {
    let c = Cfg { workers: 3, placed: true, leaf_tasks: 3, isolate: nd::bool(), ..Cfg::default() };
    let a = any_un(leaf2()); let k = nd::pick(0, 3); let b = if k == 3 { leaf2() } else { un([GROUP, COUNT, LIMIT][k], leaf2()) };
    let u = bin(UNION, 0, a, b);
    run(c, match nd::pick(0, 4) { 0 => maybe_un(u), 1 => bin(COLLECT, 0, u, leaf2()), 2 => bin(COLLECT, 0, leaf2(), u), 3 => bin(CROSS, 0, u, leaf2()), _ => bin(CROSS, 0, leaf2(), u) })
}
//# prop=C05 tier=thorough bounds="plans of three of 13 operators over a leaf of 2 rows in 1..2 partitions; 2..3 tasks per scan, 3 workers" covers="distributed,rows returned" shards=56 depth=3
#[unsafe(no_mangle)] pub extern "C" fn h_c05_long_programs() { let c = cluster(); run(c, any_un(any_un(any_un(leaf())))) }
//# prop=C06 tier=thorough bounds="joins of all 10 types (partitioned, collected, nested loop, merge) of any of 13 operators over a scan with any of them over another; broadcast joins on or off; 2 rows per leaf; 2 tasks per scan, 3 workers" covers="distributed,rows returned" shards=56 depth=3
#[unsafe(no_mangle)] pub extern "C" fn h_c06_long_programs() {
    let c = Cfg { workers: 3, placed: true, broadcast: nd::bool(), ..Cfg::default() };
    run(c, any_join(any_un(leaf2()), any_un(leaf2())))
}
//# prop=C06 tier=thorough bounds="joins of a join or union, also below one of 13 operators, with a scan; the 10 types, partitioned, collected, nested loop and merge; 2 tasks per scan, 3 workers" covers="distributed,rows returned" shards=56 depth=3
#[unsafe(no_mangle)] pub extern "C" fn h_c06_deep_programs() {
    let c = Cfg { workers: 3, placed: true, ..Cfg::default() };
    let i = some_bin(leaf2(), leaf2()); run(c, if nd::bool() { any_join(maybe_un(i), leaf2()) } else { any_join(leaf2(), maybe_un(i)) })
}
//# prop=C07 tier=thorough bounds="unions of any of 13 operators over a scan with any of them over another, below any of them; spread over the tasks or not; 3 tasks per scan, 3 workers" covers="distributed,rows returned" shards=56 depth=3
#[unsafe(no_mangle)] pub extern "C" fn h_c07_long_programs() {
    let c = Cfg { workers: 3, placed: true, leaf_tasks: 3, isolate: nd::bool(), ..Cfg::default() };
    run(c, maybe_un(bin(UNION, 0, any_un(leaf2()), any_un(leaf2()))))
}
