//! C04: a union whose children are spread over the tasks of a stage.
use super::util::*;
use crate::*;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec};
use datafusion::common::Result;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use std::sync::Arc;

/// One execution of a child: which, as what task, which partition.
#[derive(Clone, Copy, PartialEq)] pub struct Run { pub child: usize, pub index: usize, pub count: usize, pub part: usize }
pub static mut RUNS: Vec<Run> = Vec::new();
pub fn runs() -> &'static mut Vec<Run> { unsafe { &mut *std::ptr::addr_of_mut!(RUNS) } }
/// Leaf that records the task context it is executed under.
#[derive(Debug, Clone)] pub struct CtxLeaf { pub id: usize, pub props: Arc<PlanProperties> }
pub fn ctx_leaf(id: usize, parts: usize) -> Arc<dyn ExecutionPlan> { Arc::new(CtxLeaf { id, props: EmptyExec::new(schema()).with_partitions(parts).properties().clone() }) }
impl DisplayAs for CtxLeaf { fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("CtxLeaf") } }
impl ExecutionPlan for CtxLeaf {
    fn name(&self) -> &str { "CtxLeaf" } fn properties(&self) -> &Arc<PlanProperties> { &self.props } fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        assert!(p < self.props.partitioning.partition_count(), "partition of a child out of range");
        let d = DistributedTaskContext::from_ctx(&c);
        assert!(d.task_index < d.task_count, "task index within the task count");
        runs().push(Run { child: self.id, index: d.task_index, count: d.task_count, part: p });
        Ok(Box::pin(LeafStream::new(Arc::new(vec![vec![Ev::Batch(self.id * 64 + d.task_index * 8 + p + 1)]]), 0)))
    }
}
/// Executes every partition of every task of `plan`; the runs observed are in `runs()`.
pub fn run_all(plan: &Arc<dyn ExecutionPlan>, tasks: usize) {
    runs().clear();
    let mut t = 0;
    while t < tasks { run_task(plan, t, tasks); t += 1; }
}
pub fn run_task(plan: &Arc<dyn ExecutionPlan>, t: usize, tasks: usize) {
    let parts = plan.output_partitioning().partition_count();
    let mut p = 0;
    while p < parts {
        let before = runs().len();
        let mut s = plan.execute(p, consumer_ctx(t, tasks)).unwrap();
        let got = drain(&mut s);
        let ran = runs().len() - before;
        assert!(ran <= 1 && got.len() == ran, "one child partition per output partition, none lost");
        if ran == 0 { nd::cover("padding partition"); }
        p += 1;
    }
}
/// Asserts that child `c` was executed as `count` tasks for some count, each partition of each once; returns the count.
pub fn exact_runs(c: usize, parts: usize) -> usize {
    let r = runs();
    let mut count = 0; let mut total = 0; let mut i = 0;
    while i < r.len() { if r[i].child == c { if count == 0 { count = r[i].count; } assert!(r[i].count == count, "every task of a child agrees on their number"); total += 1; let mut j = 0; while j < i { assert!(r[j] != r[i], "no partition of a child runs twice"); j += 1; } } i += 1; }
    assert!(total == count * parts, "every partition of every task of a child runs");
    count
}
/// Weight `k / div` for every `k` up to `top`.
fn weight(top: usize, div: f64, caps: usize) -> ChildWeight {
    let cap = nd::pick(0, caps);
    ChildWeight { weight: nd::range(0, top) as u8 as f64 / div, max: if cap == 0 { None } else { Some(cap) } }
}
fn union(max_children: usize, max_tasks: usize, max_parts: usize, top: usize, div: f64, caps: usize, more: bool) {
    let n = nd::pick(1, max_children); let tasks = nd::pick(1, max_tasks);
    let mut ch = Vec::new(); let mut ws = Vec::new(); let mut parts = Vec::new(); let mut i = 0;
    while i < n { let p = nd::pick(1, max_parts); parts.push(p); ch.push(ctx_leaf(i, p)); ws.push(weight(top, div, caps)); i += 1; }
    let u = match ChildrenIsolatorUnionExec::from_children_and_weights(ch.clone(), ws.clone(), tasks) { Ok(u) => u, Err(_) => panic!("valid union rejected") };
    let counts = u.child_task_counts();
    let plan: Arc<dyn ExecutionPlan> = Arc::new(u.clone());
    run_all(&plan, tasks);
    let mut total = 0; let mut capped = true; let mut i = 0;
    while i < n {
        let c = exact_runs(i, parts[i]);
        assert!(c >= 1, "every child runs");
        assert!(counts[i] == c, "declared task count of a child");
        if let Some(m) = ws[i].max { assert!(c <= m, "a child never gets more tasks than its cap"); if c == m && m > 1 { nd::cover("capped child"); } if c < m { capped = false; } } else { capped = false; }
        if c > 1 { nd::cover("child over several tasks"); }
        total += c; i += 1;
    }
    // idle tasks only when no child can take more
    let mut t = 0; let mut idle = false;
    while t < tasks { if u.task_idx_map[t].is_empty() { idle = true; } t += 1; }
    if idle { nd::cover("idle task"); assert!(capped, "a task is idle although a child could use it"); }
    if tasks >= n && total > tasks { nd::cover("more children slots than tasks"); }
    if more {
        let first = runs().clone();
        // rebuilt with the same children
        let again = plan.clone().with_new_children(ch).unwrap();
        run_all(&again, tasks);
        assert!(same(&first, runs()), "the assignment survives a rewrite of the children");
        assert!(again.output_partitioning().partition_count() == plan.output_partitioning().partition_count(), "same partitions after a rewrite");
        // specialised to one task
        let t = nd::pick(0, tasks - 1);
        runs().clear(); run_task(&plan, t, tasks); let a = runs().clone();
        let sp: Arc<dyn ExecutionPlan> = Arc::new(u.to_task_specialized(t));
        assert!(sp.output_partitioning().partition_count() == plan.output_partitioning().partition_count(), "same partitions when specialised");
        runs().clear(); run_task(&sp, t, tasks);
        assert!(same(&a, runs()), "the plan specialised to a task behaves as the plan in that task");
    }
}
pub fn same(a: &Vec<Run>, b: &Vec<Run>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }

//# prop=C04 tier=quick shards=4 bounds="1..3 children of 1 partition, every weight 0..7, caps none,1,2, 1..4 tasks" covers="padding partition,capped child,child over several tasks,idle task"
#[unsafe(no_mangle)] pub extern "C" fn h_c04_assignment() { union(3, 4, 1, 7, 1.0, 2, false) }

//# prop=C04 tier=quick shards=2 bounds="1..2 children of 1 partition, every weight k/4 up to 63/4, caps none,1,2,3, 1..4 tasks" covers="padding partition,capped child,child over several tasks,idle task"
#[unsafe(no_mangle)] pub extern "C" fn h_c04_weights() { union(2, 4, 1, 63, 4.0, 3, false) }

//# prop=C04 tier=quick shards=4 bounds="1..2 children of 1..2 partitions, every weight 0..7, caps none,1,2,3, 1..4 tasks; rewrite of the children and specialisation to every task" covers="padding partition,child over several tasks"
#[unsafe(no_mangle)] pub extern "C" fn h_c04_rewrite() { union(2, 4, 2, 7, 1.0, 3, true) }

//# prop=C04 tier=thorough shards=8 bounds="1..3 children of 1..2 partitions, every weight 0..7, caps none,1,2, 1..5 tasks" covers="padding partition,capped child,child over several tasks,idle task"
#[unsafe(no_mangle)] pub extern "C" fn h_c04_assignment_deep() { union(3, 5, 2, 7, 1.0, 2, false) }

//# prop=C04 tier=thorough shards=8 bounds="1..4 children of 1 partition, every weight 0..7, no cap or cap 1, 1..4 tasks" covers="padding partition,capped child,child over several tasks,idle task"
#[unsafe(no_mangle)] pub extern "C" fn h_c04_children_deep() { union(4, 4, 1, 7, 1.0, 1, false) }

//# prop=C04 tier=quick bounds="0..2 children, 0..2 tasks, weights 1, -1, infinite and NaN, children and weights of different number"
#[unsafe(no_mangle)] pub extern "C" fn h_c04_rejects() {
    let n = nd::pick(0, 2); let m = nd::pick(0, 2); let tasks = nd::pick(0, 2);
    let mut ch = Vec::new(); let mut ws = Vec::new(); let mut i = 0; let mut bad = false;
    while i < n { ch.push(ctx_leaf(i, 1)); i += 1; }
    i = 0;
    while i < m { let k = nd::pick(0, 2); if k > 0 { bad = true; } ws.push(ChildWeight { weight: [1.0, f64::INFINITY, f64::NAN][k], max: None }); i += 1; }
    let r = ChildrenIsolatorUnionExec::from_children_and_weights(ch, ws, tasks);
    assert!(r.is_ok() == (n == m && n > 0 && tasks > 0 && !bad), "invalid unions are errors");
}
