//! C11: results do not depend on which worker, the coordinator's own process included, runs a task.
use super::e2e::*;
use super::queries::*;

fn shape(c: Cfg, k: usize, t: &Table) {
    match k {
        0 => check(c, || group(data(t), 2), None, Cmp::Rows), 1 => check(c, || count(group(data(t), 2)), None, Cmp::Rows), 2 => check(c, || sort(data(t), Some(3)), None, Cmp::Order),
        _ => check(c, || count(collect_join(data(t), group(data(t), 2), join_type(0), false)), None, Cmp::Rows),
    }
}
//# prop=C11 tier=quick bounds="grouped, counted groups, top 3 and a broadcast join of groups over 2 partitions of 1 row, every key 0..1; coordinator is one of 1..2 workers; 1..3 tasks per stage" covers="distributed,rows returned" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c11_local() {
    let mut id = 0; let t = table(&mut id, 2, 1, 1); let k = nd::pick(0, 3); let m = nd::pick(0, 3);
    shape(Cfg { workers: nd::pick(1, 2), leaf_tasks: if m > 0 { m } else { 2 }, max_tasks: m, local: true, ..Cfg::default() }, k, &t)
}
//# prop=C11 tier=quick bounds="grouped, counted groups, top 3 and a broadcast join of groups over 2 partitions of 1 row; every task of every stage on either of 2 workers; 2 tasks per stage; coordinator a worker or not" covers="distributed,rows returned" shards=4
#[unsafe(no_mangle)] pub extern "C" fn h_c11_routed() {
    let mut id = 0; let t = table(&mut id, 2, 1, 0); let k = nd::pick(0, 3);
    shape(Cfg { workers: 2, leaf_tasks: 2, local: nd::bool(), routed: true, ..Cfg::default() }, k, &t)
}
