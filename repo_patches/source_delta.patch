From aad5ae1320fc3d546cfd33f4fd327cae47836701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 01/11] fix: keep a build side limit below its broadcast

The fetch of a collected build side was applied above the NetworkBroadcastExec, once per task of
the probe stage, so that different tasks joined different build rows.
---
 src/distributed_planner/insert_broadcast.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index 7fb72cf..aaf0b41 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -133,17 +133,20 @@ pub(super) fn insert_broadcast_execs(
             return Ok(Transformed::no(node));
         };
 
-        let (broadcast_input, coalesce_fetch) = build_child
+        // A coalesce with a fetch stays below the broadcast: above it, each task would apply the
+        // fetch on its own, and different tasks would join different build rows.
+        let broadcast_input = build_child
             .downcast_ref::<CoalescePartitionsExec>()
+            .filter(|coalesce| coalesce.fetch().is_none())
             .map_or_else(
-                || (Arc::clone(build_child), None),
-                |coalesce| (Arc::clone(coalesce.input()), coalesce.fetch()),
+                || Arc::clone(build_child),
+                |coalesce| Arc::clone(coalesce.input()),
             );
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
         let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
         let new_build_child: Arc<dyn ExecutionPlan> =
-            Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+            Arc::new(CoalescePartitionsExec::new(broadcast));
 
         let mut new_children: Vec<Arc<dyn ExecutionPlan>> = children.into_iter().cloned().collect();
         new_children[0] = new_build_child;
-- 
2.43.0


From efa9eeea6e46d9e53e46632d17b3bcd8c147534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 02/11] fix: run nodes that rely on a single partition in a
 single task

A stage runs its plan once per task. Single aggregations, global sorts, limits and windows planned
directly over a one-partition input, and limits pushed into a scan, were evaluated once per task
when their stage (a union, typically) ran in several tasks, returning one result per task.
---
 .../inject_network_boundaries.rs              | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..43e0865 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -23,7 +23,8 @@ use datafusion::physical_plan::joins::{
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, Distribution, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -258,7 +259,11 @@ async fn _inject_network_boundaries(
         // This is a leaf node, maybe a DataSourceExec, or maybe something else custom from the user.
         // If we could not determine how many tasks this leaf node should run on, we need to assume
         // it cannot be distributed and use just 1 task.
-        desired_task_count.unwrap_or(Maximum(1))
+        let task_count = desired_task_count.unwrap_or(Maximum(1));
+        match relies_on_single_partition(&plan) {
+            true => task_count.merge(Maximum(1)),
+            false => task_count,
+        }
     } else if plan.is::<ChildrenIsolatorUnionExec>() {
         // Isolating unions have the chance to decide how many tasks they should run on. If there
         // is a union with a bunch of children, the user might want to increase parallelism and the
@@ -303,6 +308,9 @@ async fn _inject_network_boundaries(
         Maximum(1)
     } else {
         let mut task_count = desired_task_count.unwrap_or(Desired(1));
+        if relies_on_single_partition(&plan) {
+            task_count = task_count.merge(Maximum(1));
+        }
         // The task count for this plan is decided by the biggest task count from the children; unless
         // a child specifies a maximum task count, in that case, the maximum is respected. Some
         // nodes can only run in one task. If there is a subplan with a single node declaring that
@@ -435,6 +443,38 @@ async fn _inject_network_boundaries(
 ///   child with the allocated task count. Each child runs isolated in its own subset of tasks.
 /// - **Everything else**: recurse into children with the same `task_count`, then rebuild the
 ///   node with the rebuilt children.
+/// Returns true if `plan` is only correct because a single partition holds all of its rows: it
+/// either applies a limit to its only output partition, or needs rows to be distributed in a way
+/// that is satisfied just by its input having one partition. Running such a node in N tasks yields
+/// N of these partitions, so its stage can only run in a single task.
+fn relies_on_single_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    if plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1 {
+        return true;
+    }
+
+    // The build sides of these joins are collected in every task, which is fine as long as they are
+    // broadcast to all of them.
+    let collects_left = plan
+        .downcast_ref::<HashJoinExec>()
+        .is_some_and(|node| node.mode == PartitionMode::CollectLeft)
+        || plan.is::<NestedLoopJoinExec>()
+        || plan.is::<CrossJoinExec>();
+
+    plan.input_distribution_requirements()
+        .per_child_distributions()
+        .zip(plan.children())
+        .enumerate()
+        .any(|(i, (distribution, child))| match distribution {
+            Distribution::UnspecifiedDistribution => false,
+            Distribution::SinglePartition => i > 0 || !collects_left,
+            _ => {
+                let partitioning = child.output_partitioning();
+                partitioning.partition_count() == 1
+                    && !matches!(partitioning, Partitioning::Hash(..))
+            }
+        })
+}
+
 impl InjectNetworkBoundaryContext<'_> {
     pub(crate) fn propagate_task_count_until_network_boundaries(
         &self,
-- 
2.43.0


From 00e999bb84de2d51be67fc4b3456754fa225815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 03/11] fix: estimate stage sizes when no leaf row was pulled
 yet

Dividing by a completion of zero made every estimate infinite, and scaling the sampled bytes by the
truncated, possibly saturated inverse of the completion overflowed.
---
 src/coordinator/prepare_dynamic_plan.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..35f16a7 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
@@ -295,8 +297,13 @@ async fn gather_runtime_statistics(
         return Ok((zero_stats(n_cols), new_metrics));
     }
 
-    let per_col_byte_size = vec_mul(per_col_bytes_ready, 1. / estimated_pct_sampled);
-    let total_byte_size: usize = per_col_byte_size.iter().sum();
+    let per_col_byte_size = per_col_bytes_ready
+        .into_iter()
+        .map(|bytes| (bytes as f32 / estimated_pct_sampled) as usize)
+        .collect::<Vec<_>>();
+    let total_byte_size = per_col_byte_size
+        .iter()
+        .fold(0usize, |total, bytes| total.saturating_add(*bytes));
 
     new_metrics.push(BytesCounterMetric::new_metric(
         "estimated_output_bytes",
@@ -340,7 +347,7 @@ fn estimated_driver_path_leaf_rows(plan: &Arc<dyn ExecutionPlan>) -> Option<usiz
             let stats = StatisticsContext::new().compute(plan.as_ref(), &StatisticsArgs::new())?;
             if let Some(num_rows) = stats.num_rows.get_value() {
                 if let Some(total_rows) = &mut total_rows {
-                    *total_rows += *num_rows;
+                    *total_rows = usize::saturating_add(*total_rows, *num_rows);
                 } else {
                     total_rows = Some(*num_rows);
                 };
-- 
2.43.0


From 8927efef6ee1c1d22e3764fd540435ed7ee4a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 04/11] fix: saturate stage cost estimates

A cross join of two large inputs already saturates; adding the cost of any other node to it panicked in
debug builds and wrapped around to a tiny cost, hence a single task, in release builds.
---
 src/distributed_planner/statistics/complexity.rs      | 2 +-
 src/distributed_planner/statistics/cost.rs            | 2 +-
 src/distributed_planner/statistics/plan_statistics.rs | 5 ++---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/distributed_planner/statistics/complexity.rs b/src/distributed_planner/statistics/complexity.rs
index b03c6c7..c0d8f36 100644
--- a/src/distributed_planner/statistics/complexity.rs
+++ b/src/distributed_planner/statistics/complexity.rs
@@ -100,7 +100,7 @@ impl Complexity {
                 // `ilog2` panics on 0, which happens whenever the logged input has zero estimated
                 // bytes/rows (e.g. an empty or fully-pruned relation). Flooring at 1 makes log2
                 // contribute 0 there, i.e. sorting/merging nothing costs nothing.
-                n * m.checked_ilog2().unwrap_or(0) as usize
+                n.saturating_mul(m.checked_ilog2().unwrap_or(0) as usize)
             }
             Self::Plus(n, m) => n
                 .cost(output_stat, input_stats)?
diff --git a/src/distributed_planner/statistics/cost.rs b/src/distributed_planner/statistics/cost.rs
index dbb76e5..fa63690 100644
--- a/src/distributed_planner/statistics/cost.rs
+++ b/src/distributed_planner/statistics/cost.rs
@@ -25,7 +25,7 @@ impl AddAssign for Cost {
 
 fn sum_precision(one: Precision<usize>, other: Precision<usize>) -> Precision<usize> {
     match (one.get_value(), other.get_value()) {
-        (Some(one), Some(other)) => Precision::Inexact(one + other),
+        (Some(one), Some(other)) => Precision::Inexact(one.saturating_add(*other)),
         (Some(one), None) => Precision::Inexact(*one),
         (None, Some(other)) => Precision::Inexact(*other),
         (None, None) => Precision::Absent,
diff --git a/src/distributed_planner/statistics/plan_statistics.rs b/src/distributed_planner/statistics/plan_statistics.rs
index 636d4b8..43d175e 100644
--- a/src/distributed_planner/statistics/plan_statistics.rs
+++ b/src/distributed_planner/statistics/plan_statistics.rs
@@ -3,7 +3,6 @@ use datafusion::common::stats::Precision;
 use datafusion::common::{Statistics, plan_err};
 use datafusion::error::Result;
 use datafusion::physical_plan::{ExecutionPlan, StatisticsArgs};
-use itertools::Itertools;
 use std::sync::Arc;
 
 /// Ratio applied to the total number of rows for calculating the fallback value for NDVs.
@@ -27,8 +26,8 @@ pub(super) fn plan_statistics(
     if matches!(stats.num_rows, Precision::Absent)
         && let Some(child_rows) = children_stats
             .iter()
-            .flat_map(|v| v.num_rows.get_value())
-            .sum1::<usize>()
+            .flat_map(|v| v.num_rows.get_value().copied())
+            .reduce(usize::saturating_add)
     {
         stats.num_rows = Precision::Inexact(child_rows)
     }
-- 
2.43.0


From 763e7b342a8c823aa82bbd5fa55c044d7c0067ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 05/11] fix: give each task delivered in process its own plan
 state

---
 src/common/maybe_encoded.rs              | 9 +++++++--
 src/execution_plans/network_broadcast.rs | 4 ++++
 src/execution_plans/network_coalesce.rs  | 4 ++++
 src/execution_plans/network_shuffle.rs   | 4 ++++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/common/maybe_encoded.rs b/src/common/maybe_encoded.rs
index faef314..fd792cd 100644
--- a/src/common/maybe_encoded.rs
+++ b/src/common/maybe_encoded.rs
@@ -6,6 +6,7 @@ use datafusion::common::{Result, internal_err};
 use datafusion::execution::TaskContext;
 use datafusion::physical_expr::Partitioning;
 use datafusion::physical_plan::ExecutionPlan;
+use datafusion::physical_plan::execution_plan::reset_plan_states;
 use std::sync::Arc;
 
 /// A value that a transport may either leave encoded or materialize in memory.
@@ -56,10 +57,14 @@ impl MaybeEncoded<Arc<dyn ExecutionPlan>> {
     }
 
     /// Returns the decoded [ExecutionPlan].
-    /// - If in `Decoded` state, it just passes through the content.
+    /// - If in `Decoded` state, it passes through the content with its execution state reset, as
+    ///   several tasks running in the same process can be handed the same nodes.
     /// - If in `Encoded` state, it decodes it using the codecs registered in the [TaskContext].
     pub(crate) fn decode(self, task_ctx: &TaskContext) -> Result<Arc<dyn ExecutionPlan>> {
-        self.decode_with(|encoded| decode_execution_plan(&encoded, task_ctx))
+        match self {
+            Self::Encoded(encoded) => decode_execution_plan(&encoded, task_ctx),
+            Self::Decoded(plan) => reset_plan_states(plan),
+        }
     }
 }
 
diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 94bca6d..644d865 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -242,6 +242,10 @@ impl ExecutionPlan for NetworkBroadcastExec {
         Ok(Arc::new(self_clone))
     }
 
+    fn reset_state(self: Arc<Self>) -> Result<Arc<dyn ExecutionPlan>> {
+        Ok(self.with_input_stage(self.input_stage.clone())?)
+    }
+
     fn execute(
         &self,
         partition: usize,
diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 4cbaec0..b000f1c 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -264,6 +264,10 @@ impl ExecutionPlan for NetworkCoalesceExec {
         Ok(Arc::new(self_clone))
     }
 
+    fn reset_state(self: Arc<Self>) -> Result<Arc<dyn ExecutionPlan>> {
+        Ok(self.with_input_stage(self.input_stage.clone())?)
+    }
+
     fn execute(
         &self,
         partition: usize,
diff --git a/src/execution_plans/network_shuffle.rs b/src/execution_plans/network_shuffle.rs
index fbb4200..fcc8983 100644
--- a/src/execution_plans/network_shuffle.rs
+++ b/src/execution_plans/network_shuffle.rs
@@ -218,6 +218,10 @@ impl ExecutionPlan for NetworkShuffleExec {
         Ok(Arc::new(self_clone))
     }
 
+    fn reset_state(self: Arc<Self>) -> Result<Arc<dyn ExecutionPlan>> {
+        Ok(self.with_input_stage(self.input_stage.clone())?)
+    }
+
     fn execute(
         &self,
         partition: usize,
-- 
2.43.0


From 9387e1c9db44c932c97b4a9b5be8b3fcfacaeda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 06/11] fix: do not expand grouping sets twice in partial
 reduction

---
 .../partial_reduce_below_network_shuffles.rs  | 40 ++-----------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..f3b3ff3 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,9 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // Group-by columns in the Partial output schema appear at indices 0..N-1. Grouping sets are
+        // already expanded there, with the grouping id as one more group-by column.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From 52bbbbc229b6a4f66a9c032b9dd680e4f412c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 07/11] fix: do not underflow work unit latencies when clocks
 disagree

---
 src/work_unit_feed/remote_work_unit_feed.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/work_unit_feed/remote_work_unit_feed.rs b/src/work_unit_feed/remote_work_unit_feed.rs
index 5b73ef7..da1879f 100644
--- a/src/work_unit_feed/remote_work_unit_feed.rs
+++ b/src/work_unit_feed/remote_work_unit_feed.rs
@@ -193,14 +193,16 @@ impl RemoteFeedProvider {
 
                 msg_count.add(1);
 
-                send_latency_max.add_nanos(sent_timestamp_unix_nanos - base);
-                send_latency_p50.add_nanos(sent_timestamp_unix_nanos - base);
+                send_latency_max.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
+                send_latency_p50.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
 
-                received_latency_max.add_nanos(received_timestamp_unix_nanos - base);
-                received_latency_p50.add_nanos(received_timestamp_unix_nanos - base);
+                received_latency_max.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
+                received_latency_p50.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
 
-                processed_latency_max.add_nanos(processed_timestamp_unix_nanos - base);
-                processed_latency_p50.add_nanos(processed_timestamp_unix_nanos - base);
+                processed_latency_max
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
+                processed_latency_p50
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
 
                 Ok(work_unit)
             })
-- 
2.43.0


From 725f45d4e4d43efd3926d63f4c4a96ed714f13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 08/11] fix: fail a task whose coordinator channel breaks
 before all its work units arrived

A stream error was taken for its end: the senders were dropped and feeds ended as if complete.
---
 src/worker/impl_coordinator_channel.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..5a5927d 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -123,7 +123,20 @@ impl Worker {
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
             let mut stream = stream.map_ok(set_work_unit_received_time);
-            while let Some(Ok(msg)) = stream.next().await {
+            while let Some(msg) = stream.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg,
+                    Err(err) => {
+                        // Nothing else will arrive through this broken stream. Any feed that has
+                        // not seen its EOS yet is incomplete, so its consumers need to fail rather
+                        // than observe a regular end of stream.
+                        let err = Arc::new(err);
+                        for tx in work_unit_senders.iter().flat_map(|v| v.values()) {
+                            let _ = tx.send(Err(DataFusionError::Shared(Arc::clone(&err))));
+                        }
+                        break;
+                    }
+                };
                 match msg {
                     CoordinatorToWorkerMsg::WorkUnitBatch(work_unit_batch) => {
                         let Some(work_unit_senders) = work_unit_senders.as_mut() else {
-- 
2.43.0


From f45a89bc2e62050e7ba37b24f6553f4771715625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 09/11] fix: keep the head of a stage that is consumed without
 a producer head

A RepartitionExec at the head of a coalesced stage was stripped on the worker, so the consumer asked
for partitions that did not exist.
---
 src/distributed_planner/network_boundary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..d501207 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,7 +84,10 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
-        let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
+        let input = if matches!(self, ProducerHead::None) {
+            // No head is going to be placed, so whatever the plan has at its head belongs to it.
+            input
+        } else if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
             Arc::clone(b_exec.input())
-- 
2.43.0


From c3c6b8711213462137da417b6d7a5f1d7b01b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 10/11] fix: collect the metrics of the nodes the coordinator
 knows about

A producer head added by the worker shifted the pre-order metrics of the task by one node.
---
 src/worker/impl_coordinator_channel.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 5a5927d..17c53dc 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -177,6 +177,12 @@ impl Worker {
                 };
                 let task_data_metrics = &task_data.task_data_metrics;
                 task_data_metrics.mark_execution_finished();
+                // If the producer head was added on top of the plan that came from the coordinator,
+                // instead of replacing its head, it is unknown to the coordinator.
+                let plan = match plan.children().as_slice() {
+                    [child] if Arc::ptr_eq(child, &task_data.base_plan) => *child,
+                    _ => plan,
+                };
                 if let Some(metrics_tx) = metrics_tx {
                     send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
                 }
-- 
2.43.0


From 771aa5f02086c4a3fded7a627a708661a6ce8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:34 +0000
Subject: [PATCH 11/11] fix: read config options from exactly the headers that
 carry them

Prefixes were trimmed repeatedly and optionally, so options named after a prefix were lost or given the
value of a foreign header, and options or prefixes with upper case letters never arrived.
---
 src/config_extension_ext.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..f8fd9c6 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -1,4 +1,4 @@
-use datafusion::common::{DataFusionError, HashSet, internal_datafusion_err};
+use datafusion::common::{DataFusionError, HashMap, internal_datafusion_err};
 use datafusion::config::ConfigExtension;
 use datafusion::prelude::SessionConfig;
 use http::{HeaderMap, HeaderName};
@@ -57,24 +57,24 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .as_mut()
         .entries()
         .into_iter()
-        .map(|entry| entry.key)
-        .collect::<HashSet<_>>();
+        // Header names are lower case, regardless of how the option is spelled.
+        .map(|entry| (entry.key.to_ascii_lowercase(), entry.key))
+        .collect::<HashMap<_, _>>();
 
+    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX).to_ascii_lowercase();
     for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
-        let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
-            if !known_keys.contains(key) {
-                continue;
-            }
+        let Some(key) = k.as_str().strip_prefix(&prefix) else {
+            continue;
+        };
+        let Some(key) = known_keys.get(key) else {
+            continue;
+        };
 
-            result.as_mut().set(
-                key,
-                v.to_str()
-                    .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
-            )?;
-        }
+        result.as_mut().set(
+            key,
+            v.to_str()
+                .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
+        )?;
     }
 
     // Only insert the extension if it is not already there. If this is otherwise MutOrOwned::Mut it
-- 
2.43.0

