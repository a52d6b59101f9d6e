N = "src/execution_plans/"
prop("C01", "A gather boundary reads every producer partition exactly once",
  "When a stage with any number of tasks and partitions is gathered by a stage with any number of tasks, each partition of each producer task is read by exactly one output partition of exactly one consumer task, and no row is lost or duplicated. Output partitions that correspond to no producer task yield no rows and cause no request, and all tasks of the consumer stage expose the same number of partitions.",
  ["inputs", "configurations"], "every producer task count, consumer task count, partitions per task, consumer task index and output partition within the bounds",
  "Tests fix a handful of (producers, consumers) pairs, mostly even divisions and N-to-1; uneven groupings, more consumers than producers and multi-partition producers are a full product of counts.",
  [N + "network_coalesce.rs", N + "common.rs", "src/worker/worker_connection_pool.rs", "src/stage.rs"],
  [("grouping of producer tasks per consumer task", N + "network_coalesce.rs: task_group, NetworkCoalesceExec::execute"), ("output partition sizing", N + "network_coalesce.rs: try_from_stage")],
  ["ExecuteTaskRequest sent per consumer task", "batches of each output partition"])
prop("C02", "A hash shuffle delivers every row once, equal keys to the same partition",
  "When a hash-partitioned stage of any number of tasks is shuffled to a stage of any number of tasks, every row of every producer task is delivered to exactly one partition of exactly one consumer task, and rows with equal keys, whatever task produced them, reach the same consumer partition. Each consumer task asks each producer task once, for exactly the slots it will read, within the number of slots the producer is told to create.",
  ["inputs", "configurations"], "every producer task count, consumer task count, partitions per task and assignment of keys to rows within the bounds",
  "Tests compare a few queries at fixed task counts; slot arithmetic errors that only overlap or leave gaps for particular count combinations are not sampled.",
  [N + "network_shuffle.rs", N + "common.rs", "src/distributed_planner/network_boundary.rs", "src/worker/worker_connection_pool.rs", "src/worker/impl_execute_task.rs"],
  [("slot offset per consumer task", N + "network_shuffle.rs: execute"), ("producer head scaled by consumer tasks", N + "network_shuffle.rs: producer_head"), ("head insertion", "src/distributed_planner/network_boundary.rs: ProducerHead::insert")],
  ["ExecuteTaskRequest sent per consumer task", "batches of each output partition"])
prop("C03", "A broadcast gives every consumer all rows of the build side, computed once",
  "When a stage is broadcast to a stage of any number of tasks, every consumer task receives, over its output partitions, each batch produced by every partition of every producer task exactly once and in the producer's order per partition, whatever the relative speed of the consumers, whether consumers start late, and whether some of them stop reading early. Each producer partition is executed once no matter how many consumers read it, and an error of the producer reaches every consumer that reads to the end.",
  ["inputs", "schedules", "configurations"], "every interleaving of consumers reading, dropping and the producer progressing, every producer script of batches, waits and failures, and every task and partition count, within the bounds",
  "The replay to late readers depends on where each reader stands when the producer progresses; tests read the streams in one fixed order at one speed.",
  [N + "broadcast.rs", N + "network_broadcast.rs", N + "common.rs", "src/worker/impl_execute_task.rs"],
  [("cache shared by virtual partitions", N + "broadcast.rs: BroadcastExec::execute"), ("slots read by each consumer task", N + "network_broadcast.rs: execute")],
  ["batches each consumer reads, in order", "executions of each input partition"])
prop("C04", "A distributed union runs each child's tasks exactly once",
  "When the children of a union are spread over the tasks of a stage by weight and cap, every partition of every task of every child is executed exactly once over the whole stage, all tasks of a child agree on how many they are, no child gets more tasks than its cap or fewer than one, and no stage task is idle while a child could still use it. All tasks expose the same partitions. Rebuilding the union with the same children, or specialising it to one task, changes nothing observable, and invalid weights or counts are errors.",
  ["inputs", "configurations"], "every number of children and tasks, every weight and cap, within the bounds",
  "The assignment is decided by floating point comparisons of weights and rounding of shares; tests cover a few weight vectors.",
  [N + "children_isolator_union.rs", "src/stage.rs"],
  [("weighted split of the task budget", N + "children_isolator_union.rs: split_children"), ("task index map", N + "children_isolator_union.rs: from_children_and_weights, execute, to_task_specialized")],
  ["child executions with their task context", "errors"])
COORD = "src/coordinator/"; PLN = "src/distributed_planner/"; WRK = "src/worker/"
prop("C05", "A distributed query returns what the single-node plan returns",
  "For every query that DataFusion can run on one node, planning it for a cluster and running it there returns the same rows the same number of times; where the query orders its result the rows come in the same order, where it limits its result the same number of rows comes out of those that qualify. This holds whatever the data, the number of workers and of tasks per scan, the number of exchanges, and the order in which the tasks of the cluster make progress; the query completes, and once it has, workers keep nothing of it.",
  ["inputs", "configurations", "schedules"], "every assignment of keys to rows, placement of keys to partitions, number of partitions, tasks and workers, limit and offset, and order of running tasks that departs from the round robin, within the bounds",
  "Tests compare a few queries over fixed data at fixed cluster sizes and one schedule; a plan that is wrong only when a partition is empty, two keys meet in one partition, tasks outnumber workers or a task runs late is not sampled.",
  [PLN + "inject_network_boundaries.rs", PLN + "session_state_builder_ext.rs", PLN + "network_boundary.rs", PLN + "push_fetch_into_network_coalesce.rs", PLN + "partial_reduce_below_network_shuffles.rs", COORD + "distributed.rs", COORD + "query_coordinator.rs", COORD + "prepare_static_plan.rs", WRK + "impl_coordinator_channel.rs", WRK + "impl_execute_task.rs", WRK + "worker_connection_pool.rs"],
  [("stage boundaries", PLN + "inject_network_boundaries.rs"), ("fetch pushed below boundaries", PLN + "push_fetch_into_network_coalesce.rs"), ("partial aggregation below shuffles", PLN + "partial_reduce_below_network_shuffles.rs"), ("plans sent to the tasks of a stage", COORD + "query_coordinator.rs"), ("execution of a task", WRK + "impl_execute_task.rs")],
  ["rows returned by the head of the plan", "task entries on the workers"])
prop("C06", "A distributed join returns what the single-node join returns",
  "For joins of every type, whether both sides are hash-partitioned, the build side is collected, or the sides are compared in nested loops or crossed, and whether build sides are broadcast or not, the distributed result has the same rows the same number of times as on one node. In particular outer, semi, anti and mark rows are emitted once, not once per task, and a build side that is limited, aggregated, ordered, unioned or joined itself means the same to every task that reads it.",
  ["inputs", "configurations"], "every join type, every assignment of keys to rows, placement of keys to partitions, number of partitions and tasks, and broadcast setting, within the bounds",
  "Whether a broadcast is sound depends on the join type, the side and what is below it; tests run a few types on fixed data where unmatched rows or several build tasks may not occur.",
  [PLN + "inject_network_boundaries.rs", PLN + "normalize_collect_joins.rs", PLN + "insert_broadcast.rs", N + "broadcast.rs", N + "network_broadcast.rs"],
  [("broadcast inserted above build sides", PLN + "insert_broadcast.rs"), ("joins that cannot be spread", PLN + "inject_network_boundaries.rs")],
  ["rows returned by the head of the plan"])
prop("C07", "A distributed union returns what the single-node union returns",
  "For unions of plain, grouped, counted, ordered, limited, joined and nested children, below and above other operators, the distributed result has the same rows the same number of times as on one node, whether the children are spread over the tasks of the stage or every task runs every child, and whatever the number of partitions, tasks and workers.",
  ["inputs", "configurations"], "every combination of children, number of partitions, tasks and workers, and union setting, within the bounds",
  "A child whose rows come from a single task is duplicated or dropped only for particular mixes of children and task counts; tests fix a few.",
  [PLN + "inject_network_boundaries.rs", N + "children_isolator_union.rs", COORD + "prepare_static_plan.rs"],
  [("task counts of union children", PLN + "inject_network_boundaries.rs"), ("children per task", N + "children_isolator_union.rs")],
  ["rows returned by the head of the plan"])
prop("C08", "A failure anywhere fails the query and leaves nothing behind",
  "When a scan of any task fails, or opening a connection to a worker, sending it a plan or reading a partition from it fails, the query ends with an error instead of returning fewer rows or waiting forever; a query that returns rows without an error returned all of them. Afterwards no leaf stream and no background task of the query stays alive, and what the workers hold of it expires.",
  ["fault_sequences", "schedules", "configurations"], "every operation of a query as the one that fails, and every order of running tasks within the bounds",
  "Tests inject failures at one or two places; which of the many hops of a multi-stage query fails, and what else is in flight at that time, is a product they do not enumerate.",
  [COORD + "query_coordinator.rs", COORD + "distributed.rs", WRK + "impl_coordinator_channel.rs", WRK + "impl_execute_task.rs", WRK + "worker_connection_pool.rs", WRK + "single_write_multi_read.rs", N + "common.rs", "src/execution_plans/common.rs"],
  [("errors of background tasks reach the head", COORD + "distributed.rs"), ("plans that never arrive", WRK + "impl_execute_task.rs"), ("entries that expire", WRK + "worker_service.rs")],
  ["outcome of the query", "alive tasks and leaf streams", "task entries on the workers"])
prop("C09", "A cancelled query stops everywhere",
  "When the consumer of a query goes away at any point of its execution, every task of every stage stops: no leaf stream and no background task of the query stays alive, nothing panics, and what the workers hold of it is released or expires.",
  ["schedules", "crash_points", "configurations"], "every step of the execution as the one after which the consumer goes away, and every order of running tasks within the bounds",
  "Tests cancel at one arbitrary moment; what is left behind depends on which plans have been sent, which streams opened and which batches are in flight at that moment.",
  [COORD + "query_coordinator.rs", COORD + "distributed.rs", WRK + "impl_coordinator_channel.rs", WRK + "impl_execute_task.rs", WRK + "worker_connection_pool.rs", "src/execution_plans/common.rs"],
  [("work aborted on drop", COORD + "distributed.rs"), ("task entries", WRK + "worker_service.rs")],
  ["alive tasks and leaf streams", "task entries on the workers"])
prop("C10", "Adaptive planning returns what the single-node plan returns",
  "When the number of tasks of each stage is decided while the query runs, from the load the stages below report, the result is the same as on one node whatever those reports and the estimates of the scans are: nothing sampled, everything sampled, no progress reported, no or absurd estimates. Planning never fails or panics on account of them, every stage gets at least one task and no more than the cluster allows, each of its tasks is planned once, and the query completes and leaves nothing behind.",
  ["inputs", "configurations", "schedules"], "every progress of the sampled scans, estimate, bytes per partition, number of partitions, tasks and workers, and assignment of keys, within the bounds",
  "The decision depends on what happens to be ready when the sampler runs; tests over small local files see finished samples and sane estimates only.",
  [COORD + "prepare_dynamic_plan.rs", N + "sampler.rs", PLN + "inject_network_boundaries.rs", PLN + "statistics/mod.rs", "src/common/vec.rs"],
  [("load gathered from the samplers", COORD + "prepare_dynamic_plan.rs: gather_runtime_statistics"), ("task count from cost", COORD + "prepare_dynamic_plan.rs: prepare_dynamic_plan"), ("sampling", N + "sampler.rs: PartitionSampler::kick_off")],
  ["rows returned by the head of the plan", "plans sent per stage"])
prop("C19", "Cost estimates are total and grow with the data",
  "The cost of a stage is computed for every plan and every estimate DataFusion may give its nodes, absent, zero or saturated, without failing or wrapping around; a plan costs at least as much as the parts below it, what is known of one part counts even when another is not known, and when the estimates of its inputs grow its cost does not shrink, so that larger inputs never get fewer tasks.",
  ["inputs"], "every estimate of rows and bytes of every node of plans of every kind of node, within the bounds",
  "Overflow and lost monotonicity show up at estimates no test table has.",
  [PLN + "statistics/cost.rs", PLN + "statistics/complexity.rs", PLN + "statistics/complexity_cpu.rs", PLN + "statistics/complexity_memory.rs", PLN + "statistics/complexity_network.rs", PLN + "statistics/plan_statistics.rs"],
  [("accumulated cost", PLN + "statistics/cost.rs: calculate_cost"), ("cost of a node", PLN + "statistics/complexity.rs: Complexity::cost")],
  ["cost of the plan"])
prop("C11", "Results do not depend on where tasks run",
  "A query returns what the single-node plan returns whichever worker each task of each stage is sent to, several tasks of one stage on the same worker included, and whether workers are reached over the network or the coordinator is itself one of them and runs tasks in its own process: tasks that share a process do not share streams, connections or any other execution state, and the configured number of tasks per stage is honoured when it exceeds the number of workers.",
  ["configurations", "inputs"], "every assignment of tasks to workers, set of tasks run in the coordinator's process, number of tasks per stage and key, within the bounds",
  "Round robin over distinct workers is what tests use; tasks of one stage meeting in one process, without serialization in between, is a configuration they do not reach.",
  [COORD + "query_coordinator.rs", "src/protocol/in_process/worker_client.rs", "src/protocol/in_process/local_worker_context.rs", "src/common/maybe_encoded.rs", WRK + "worker_connection_pool.rs", "src/events/defaults/routing.rs"],
  [("plans handed over in process", "src/common/maybe_encoded.rs: MaybeEncoded::decode"), ("choice of transport", COORD + "query_coordinator.rs: send_plan_task"), ("default placement", "src/events/defaults/routing.rs")],
  ["rows returned by the head of the plan"])
prop("C12", "Plans sent to workers arrive as they were",
  "Every node of this library encoded to bytes and decoded again is the same node: a network boundary keeps its kind, its schema, its partitioning, and the query, number and workers of its stage, in task order; a union spread over tasks keeps which child runs in which task with which weights and caps; broadcasts, samplers and stages still to run keep their children and counts; nodes the user encodes are left to the user's codec. A query whose plans and partitionings travel as bytes returns what the single-node plan returns.",
  ["inputs", "programs"], "every stage number, query id, task and partition count, child assignment and weight, list of workers and nesting, within the bounds",
  "Round-trip tests compare displayed plans of a few fixed values; a field swapped, narrowed or dropped shows only for values that differ.",
  ["src/codec/distributed_codec.rs", "src/codec/physical_plan.rs", "src/codec/user_codec.rs", "src/common/maybe_encoded.rs"],
  [("encoding", "src/codec/distributed_codec.rs: try_encode"), ("decoding", "src/codec/distributed_codec.rs: try_decode"), ("plans and partitionings", "src/codec/physical_plan.rs")],
  ["decoded nodes", "rows returned by the head of the plan"])
prop("C13", "Every work unit reaches exactly one task, once",
  "Whatever a work unit feed produces on the coordinator is delivered to the tasks of the stage that reads it: each feed partition is opened once, each unit arrives exactly once, in order, at the task and partition it was produced for, as bytes or in process, whatever the clocks of the machines show. A query over feeds returns what the single-node plan returns; a feed that fails fails the query; a link to a worker that breaks while units are in flight fails the query instead of cutting feeds short; and no feed outlives a query that ended, failed or was cancelled.",
  ["inputs", "configurations", "schedules", "crash_points"], "every number of units, partitions, tasks and workers, key, shape of query around the feeds, message at which a link breaks, reader that stops early and moment of cancellation, within the bounds",
  "Which unit goes where depends on partitions per task, tasks per stage and on how unions deal tasks to children; tests look at a few fixed splits.",
  ["src/work_unit_feed/remote_work_unit_feed.rs", "src/work_unit_feed/work_unit_feed.rs", "src/work_unit_feed/work_unit_feed_registry.rs", COORD + "query_coordinator.rs", WRK + "impl_coordinator_channel.rs"],
  [("units produced per task", COORD + "query_coordinator.rs: coordinator_to_worker_task"), ("units received", WRK + "impl_coordinator_channel.rs"), ("units read", "src/work_unit_feed/remote_work_unit_feed.rs: RemoteFeedProvider::feed")],
  ["rows returned by the head of the plan", "feeds opened and alive"])
prop("C14", "The metrics shown for a distributed query are those of the work done",
  "With metrics collection on, once a query has finished the metrics of all its tasks are available, and the plan rewritten with them is the plan that ran: every node of every stage carries exactly the metrics its copies recorded in the tasks they ran in, summed over the tasks or one entry per task labelled with the task that recorded it, nothing missing, counted twice or attributed to another node or task; this holds whether task counts were decided before or while the query ran, wherever tasks ran, and in whatever order messages arrive. Collecting metrics does not change the result.",
  ["inputs", "programs", "configurations", "schedules"], "every key, number of partitions and tasks, shape of query, union isolation, placement, format of the metrics and order of events, within the bounds",
  "Metrics are matched to nodes by position in a traversal that has to agree between coordinator, worker and the rewriter for every shape of plan; tests look at a few plans' totals.",
  ["src/metrics/task_metrics_rewriter.rs", "src/metrics/task_metrics_collector.rs", "src/coordinator/metrics_store.rs", WRK + "impl_coordinator_channel.rs", "src/common/recursion.rs"],
  [("metrics sent by a task", WRK + "impl_coordinator_channel.rs: send_metrics_via_channel"), ("metrics kept per task", "src/coordinator/metrics_store.rs"), ("plan rewritten with metrics", "src/metrics/task_metrics_rewriter.rs: rewrite_distributed_plan_with_metrics")],
  ["metrics of the nodes of the rewritten plan", "rows returned by the head of the plan"])
prop("C15", "Every worker runs with the configuration of the session that asked",
  "Every option of a configuration extension registered for propagation has on every worker that takes part in the query exactly the value it has in the querying session, whatever the options and the extension are called and however many hops away the worker is; an option that is unset leaves what the worker has; extensions not registered stay where they are; headers that carry no option of that extension, however named, change nothing; a value that cannot travel fails the query instead of being dropped. The library's own options travel the same way. Headers to pass through reach the workers as they are, and names of the reserved prefix are rejected.",
  ["inputs", "configurations"], "every text of the values and the names, within the bounds",
  "Names and values are text that is prefixed, lower-cased, matched and parsed on the way; tests send a handful of well-behaved ones.",
  ["src/config_extension_ext.rs", "src/passthrough_headers.rs", "src/distributed_ext.rs", COORD + "query_coordinator.rs", WRK + "impl_coordinator_channel.rs"],
  [("options to headers", "src/config_extension_ext.rs: get_config_extension_propagation_headers"), ("headers to options", "src/config_extension_ext.rs: set_distributed_option_extension_from_headers"), ("headers passed through", "src/passthrough_headers.rs: set_passthrough_headers"), ("headers of a query", COORD + "query_coordinator.rs: send_plan_task")],
  ["options of the worker's session", "headers of the requests to workers"])
