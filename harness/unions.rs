//! C07: unions return what the single-node plan returns.
use super::e2e::*;
use super::queries::{cfg, tab};
use datafusion::physical_plan::union::UnionExec;
use std::sync::Arc;

fn un(v: Vec<P>) -> P { UnionExec::try_new(v).unwrap() }
//# prop=C07 tier=quick bounds="plain, grouped, counted, nested, ordered unions of 2..3 children of 1..2 partitions with 1..2 rows; spread over the tasks or not; 1..3 tasks per scan, 1..3 workers" covers="distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c07_shapes() { shapes(Cfg { isolate: nd::bool(), ..cfg() }, nd::pick(0, 6)) }
fn shapes(c: Cfg, k: usize) {
    let mut id = 0; let a = table(&mut id, nd::pick(1, 2), 1, 0); let b = table(&mut id, nd::pick(1, 2), 2, 0);
    let n = if a.len() == 1 && b.len() == 1 { 1 } else { 2 };
    match k {
        0 => check(c, || un(vec![data(&a), data(&b)]), None, Cmp::Rows), 1 => check(c, || un(vec![group(data(&a), n), group(data(&b), n)]), None, Cmp::Rows),
        2 => check(c, || un(vec![count(data(&a)), count(data(&b))]), None, Cmp::Rows), 3 => check(c, || group(un(vec![data(&a), data(&b)]), 2), None, Cmp::Rows),
        4 => check(c, || un(vec![un(vec![data(&a), data(&b)]), data(&a)]), None, Cmp::Rows), 5 => check(c, || un(vec![data(&a), data(&b), count(data(&a))]), None, Cmp::Rows),
        _ => check(c, || un(vec![sort(data(&a), Some(1)), data(&b)]), None, Cmp::Rows),
    }
}
//# prop=C07 tier=quick bounds="unions below a limit, an ordering, a join and as a build side, and of joins and limits, of 2..3 children of 1..2 partitions; spread over the tasks or not, broadcast joins on or off; 2..3 tasks per scan, 2 workers" covers="distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c07_nested() {
    let c = Cfg { isolate: nd::bool(), broadcast: nd::bool(), leaf_tasks: nd::pick(2, 3), ..Cfg::default() };
    let mut id = 0; let (a, b, d) = (table(&mut id, 2, 1, 0), table(&mut id, 1, 2, 0), table(&mut id, 2, 1, 0)); let t = datafusion::common::JoinType::Inner;
    let u = || un(vec![data(&a), data(&b)]);
    match nd::pick(0, 8) {
        0 => check(c, || limit(u(), 1, Some(2)), Some(u()), Cmp::Limited), 1 => check(c, || sort(u(), None), None, Cmp::Order), 2 => check(c, || hash_join(u(), data(&d), t, 2), None, Cmp::Rows),
        3 => check(c, || collect_join(u(), data(&d), t, false), None, Cmp::Rows), 4 => check(c, || collect_join(data(&d), u(), t, false), None, Cmp::Rows),
        5 => check(c, || un(vec![collect_join(data(&a), data(&d), t, false), data(&b)]), None, Cmp::Rows), 6 => check(c, || un(vec![limit(data(&a), 0, Some(1)), group(data(&d), 2)]), None, Cmp::Rows),
        7 => check(c, || un(vec![limit(u(), 0, Some(3)), data(&d)]), Some(un(vec![u(), data(&d)])), Cmp::Limited), _ => check(c, || un(vec![group(u(), 2), count(u()), data(&d)]), None, Cmp::Rows),
    }
}
//# prop=C07 tier=thorough bounds="as in quick, and leaves with 1..4 tasks on 1..4 workers" covers="distributed,rows returned" shards=14 depth=5
#[unsafe(no_mangle)] pub extern "C" fn h_c07_wide() { let k = nd::pick(0, 6); shapes(Cfg { isolate: nd::bool(), workers: nd::pick(1, 4), leaf_tasks: nd::pick(1, 4), ..Cfg::default() }, k) }
