use super::ExecutionPlan; use crate::common::Statistics; use crate::error::Result; use std::sync::Arc;
#[derive(Debug, Default, Clone)] pub struct StatisticsArgs { partition: Option<usize> }
impl StatisticsArgs { pub fn new() -> Self { Self::default() } pub fn with_partition(mut self, p: Option<usize>) -> Self { self.partition = p; self } pub fn partition(&self) -> Option<usize> { self.partition } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ChildStats { At(Option<usize>), Skip }
#[derive(Default)] pub struct StatisticsContext;
impl StatisticsContext {
    pub fn new() -> Self { Self }
    pub fn compute(&self, plan: &dyn ExecutionPlan, args: &StatisticsArgs) -> Result<Arc<Statistics>> {
        let reqs = plan.child_stats_requests(args.partition()); let mut v = Vec::new(); let mut i = 0; let ch = plan.children();
        while i < ch.len() { v.push(match reqs[i] { ChildStats::At(p) => self.compute(ch[i].as_ref(), &StatisticsArgs::new().with_partition(p))?, ChildStats::Skip => Arc::new(Statistics::new_unknown(&ch[i].schema())) }); i += 1; }
        plan.statistics_from_inputs(&v, args)
    }
}
