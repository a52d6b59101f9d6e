//! C19: estimates that decide how many tasks a stage gets.
use super::e2e::*;
use crate::distributed_planner::statistics::calculate_cost;
use datafusion::physical_plan::ANY_STATISTICS;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::union::UnionExec;
use std::sync::Arc;

fn leaf() -> P { Arc::new(counting(&vec![vec![], vec![]], None)) }
/// One node of every kind over nodes whose estimates are anything.
fn node(k: usize) -> P {
    match k {
        0 => sort(one_partition(leaf()), None), 1 => sort(one_partition(leaf()), Some(3)), 2 => hash(leaf(), 2), 3 => agg(datafusion::physical_plan::aggregates::AggregateMode::Partial, true, leaf()),
        4 => Arc::new(datafusion::physical_plan::windows::WindowAggExec::model(leaf(), vec![col()])), 5 => Arc::new(datafusion::physical_plan::limit::LocalLimitExec::new(leaf(), 2)), 6 => one_partition(leaf()),
        7 => UnionExec::try_new(vec![leaf(), leaf()]).unwrap(), 8 => cross_join(leaf(), leaf()), 9 => Arc::new(datafusion::physical_plan::joins::NestedLoopJoinExec::model(leaf(), leaf(), None, join_type(0))),
        10 => Arc::new(datafusion::physical_plan::joins::HashJoinExec::model(leaf(), leaf(), vec![(col(), col())], join_type(0), datafusion::physical_plan::joins::PartitionMode::Partitioned, false)),
        11 => Arc::new(datafusion::physical_plan::joins::SortMergeJoinExec::model(leaf(), leaf(), vec![(col(), col())], join_type(0))), 12 => Arc::new(crate::BroadcastExec::new(leaf(), 2)), _ => leaf(),
    }
}
fn v(p: datafusion::common::stats::Precision<usize>) -> usize { *p.get_value().unwrap_or(&0) }
fn estimates() -> &'static mut Vec<[Option<usize>; 3]> { unsafe { &mut *std::ptr::addr_of_mut!(datafusion::physical_plan::ESTIMATES) } }
fn any(max: usize) -> Option<usize> { if nd::bool() { Some(nd::range(0, max)) } else { None } }
fn cost(p: &P) -> [usize; 3] { unsafe { ANY_STATISTICS = true; datafusion::physical_plan::ASKED = 0; } let c = calculate_cost(p).expect("every plan has a cost"); unsafe { ANY_STATISTICS = false; } [v(c.cpu), v(c.memory), v(c.network)] }
fn at_least(a: [usize; 3], b: [usize; 3]) -> bool { a[0] >= b[0] && a[1] >= b[1] && a[2] >= b[2] }
//# prop=C19 tier=quick bounds="a node of each of 14 kinds over one or two leaves, and a sort above it; every estimate of rows and bytes of every node absent or any 64-bit value" covers="estimated" shards=8
#[unsafe(no_mangle)] pub extern "C" fn h_c19_extremes() {
    let p = node(nd::pick(0, 13)); let top = sort(one_partition(p), None);
    while estimates().len() < 2 { let d = any(usize::MAX); estimates().push([any(usize::MAX), d, d]); } while estimates().len() < 8 { let d = Some(nd::range(0, usize::MAX)); estimates().push([None, d, d]); }
    if cost(&top)[0] > 0 { nd::cover("estimated"); }
}
//# prop=C19 tier=quick bounds="a node of each of 14 kinds over one or two leaves; every estimate of rows and bytes of the leaves absent or any 8-bit value; the whole costs at least as much as its leaves" covers="estimated" shards=8
#[unsafe(no_mangle)] pub extern "C" fn h_c19_parts() {
    let p = node(nd::pick(0, 13)); let l = leaf();
    let b = any(255); estimates().push([any(255), b, b]); while estimates().len() < 6 { let d = Some(nd::range(0, 255)); estimates().push([None, d, d]); }
    let (a, b) = (cost(&l), cost(&p));
    assert!(at_least(b, a), "a plan costs at least as much as what is below it");
    if a[0] > 0 { nd::cover("estimated"); }
}
//# prop=C19 tier=quick bounds="a node of each of 14 kinds over one or two leaves; every estimate of rows and bytes any 4-bit value; larger inputs never cost less" covers="estimated" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c19_growth() {
    let p = node(nd::pick(0, 13)); let m = 15; let mut i = 0; let mut grown = Vec::new();
    while i < 6 { let x = nd::range(0, m); let dx = nd::range(0, m); estimates().push([Some(x), Some(x), Some(x)]); grown.push([Some(x + dx), Some(x + dx), Some(x + dx)]); i += 1; }
    let a = cost(&p); *estimates() = grown; let b = cost(&p);
    assert!(at_least(b, a), "a larger input does not cost less");
    if a[0] > 0 { nd::cover("estimated"); }
}
//# prop=C19 tier=quick bounds="a node of each of 14 kinds over one or two leaves; every estimate of rows and bytes of every node any value of 16..255, or those of one leaf or of the node absent; what is known is never lost" covers="estimated" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c19_known() {
    let p = node(nd::pick(0, 13)); let gone = nd::pick(0, 2);
    while estimates().len() < 6 { let i = estimates().len(); let x = Some(nd::range(16, 255)); estimates().push(if gone > 0 && i == gone { [None, None, None] } else { [x, x, x] }); }
    let l = leaf(); let a = cost(&l); assert!(a[0] > 0, "reading known rows costs something"); let b = cost(&p);
    assert!(b[0] >= a[0], "what one part costs is counted when another is not known"); nd::cover("estimated");
}
