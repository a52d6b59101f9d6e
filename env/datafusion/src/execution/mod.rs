//! Session, task context, streams and memory accounting.
use crate::arrow::datatypes::SchemaRef; use crate::arrow::array::RecordBatch; use crate::common::HashMap; use crate::error::Result;
use crate::logical_expr::{AggregateUDF, LogicalPlan, ScalarUDF, WindowUDF}; use crate::physical_plan::ExecutionPlan;
use futures::Stream; use std::any::Any; use std::pin::Pin; use std::sync::Arc;
pub mod config; pub mod memory_pool; pub mod runtime_env;
use config::SessionConfig; use runtime_env::RuntimeEnv; use memory_pool::MemoryPool;
pub trait RecordBatchStream: Stream<Item = Result<RecordBatch>> { fn schema(&self) -> SchemaRef; }
pub type SendableRecordBatchStream = Pin<Box<dyn RecordBatchStream + Send>>;
#[derive(Debug)]
pub struct TaskContext { session_id: String, task_id: Option<String>, session_config: SessionConfig, runtime: Arc<RuntimeEnv>,
    s: HashMap<String, Arc<ScalarUDF>>, a: HashMap<String, Arc<AggregateUDF>>, w: HashMap<String, Arc<WindowUDF>> }
impl Default for TaskContext { fn default() -> Self { Self::model(SessionConfig::new(), Arc::new(RuntimeEnv::default())) } }
impl TaskContext {
    pub fn model(session_config: SessionConfig, runtime: Arc<RuntimeEnv>) -> Self { Self { session_id: String::new(), task_id: None, session_config, runtime, s: HashMap::new(), a: HashMap::new(), w: HashMap::new() } }
    pub fn new(task_id: Option<String>, session_id: String, session_config: SessionConfig, s: HashMap<String, Arc<ScalarUDF>>, h: HashMap<String, Arc<ScalarUDF>>, a: HashMap<String, Arc<AggregateUDF>>, w: HashMap<String, Arc<WindowUDF>>, runtime: Arc<RuntimeEnv>) -> Self { Self { session_id, task_id, session_config, runtime, s, a, w } }
    pub fn session_config(&self) -> &SessionConfig { &self.session_config } pub fn session_id(&self) -> String { self.session_id.clone() } pub fn task_id(&self) -> Option<String> { self.task_id.clone() }
    pub fn runtime_env(&self) -> Arc<RuntimeEnv> { Arc::clone(&self.runtime) } pub fn memory_pool(&self) -> &Arc<dyn MemoryPool> { &self.runtime.memory_pool }
    pub fn scalar_functions(&self) -> &HashMap<String, Arc<ScalarUDF>> { &self.s } pub fn higher_order_functions(&self) -> &HashMap<String, Arc<ScalarUDF>> { &self.s } pub fn aggregate_functions(&self) -> &HashMap<String, Arc<AggregateUDF>> { &self.a } pub fn window_functions(&self) -> &HashMap<String, Arc<WindowUDF>> { &self.w }
    pub fn with_session_config(mut self, c: SessionConfig) -> Self { self.session_config = c; self } pub fn with_runtime(mut self, r: Arc<RuntimeEnv>) -> Self { self.runtime = r; self }
}
pub mod context {
    pub use super::{SessionContext, SessionState};
    #[async_trait::async_trait]
    pub trait QueryPlanner: std::fmt::Debug { async fn create_physical_plan(&self, l: &crate::logical_expr::LogicalPlan, s: &dyn super::Session) -> crate::error::Result<std::sync::Arc<dyn crate::physical_plan::ExecutionPlan>>; }
}
pub use context::QueryPlanner;
pub trait Session: Send + Sync { fn config(&self) -> &SessionConfig; fn as_any(&self) -> &dyn Any; fn config_options(&self) -> &crate::config::ConfigOptions { self.config().options() } }
#[derive(Clone, Debug, Default)]
pub struct SessionState { config: SessionConfig, runtime: Arc<RuntimeEnv>, planner: Option<Arc<dyn QueryPlanner + Send + Sync>> }
impl Session for SessionState { fn config(&self) -> &SessionConfig { &self.config } fn as_any(&self) -> &dyn Any { self } }
impl SessionState {
    pub fn config(&self) -> &SessionConfig { &self.config } pub fn config_mut(&mut self) -> &mut SessionConfig { &mut self.config } pub fn config_options(&self) -> &crate::config::ConfigOptions { self.config.options() } pub fn runtime_env(&self) -> &Arc<RuntimeEnv> { &self.runtime }
    pub fn task_ctx(&self) -> Arc<TaskContext> { Arc::new(TaskContext::model(self.config.clone(), Arc::clone(&self.runtime))) }
    pub fn query_planner(&self) -> &Arc<dyn QueryPlanner + Send + Sync> { self.planner.as_ref().unwrap() } pub fn session_id(&self) -> &str { "" }
}
#[derive(Default, Debug)]
pub struct SessionStateBuilder { config: Option<SessionConfig>, runtime: Option<Arc<RuntimeEnv>>, planner: Option<Arc<dyn QueryPlanner + Send + Sync>> }
impl SessionStateBuilder {
    pub fn new() -> Self { Self::default() } pub fn new_from_existing(s: SessionState) -> Self { Self { config: Some(s.config), runtime: Some(s.runtime), planner: s.planner } }
    pub fn new_with_default_features() -> Self { Self::default() }
    pub fn with_default_features(self) -> Self { self } pub fn with_config(mut self, c: SessionConfig) -> Self { self.config = Some(c); self } pub fn with_runtime_env(mut self, r: Arc<RuntimeEnv>) -> Self { self.runtime = Some(r); self }
    pub fn with_query_planner(mut self, p: Arc<dyn QueryPlanner + Send + Sync>) -> Self { self.planner = Some(p); self }
    pub fn config(&mut self) -> &mut Option<SessionConfig> { &mut self.config } pub fn runtime_env(&mut self) -> &mut Option<Arc<RuntimeEnv>> { &mut self.runtime } pub fn query_planner(&mut self) -> &mut Option<Arc<dyn QueryPlanner + Send + Sync>> { &mut self.planner }
    pub fn with_session_id(self, _: String) -> Self { self }
    pub fn build(self) -> SessionState { SessionState { config: self.config.unwrap_or_default(), runtime: self.runtime.unwrap_or_default(), planner: self.planner } }
}
impl From<SessionState> for SessionStateBuilder { fn from(s: SessionState) -> Self { Self::new_from_existing(s) } }
#[derive(Clone, Default)]
pub struct SessionContext { pub st: SessionState }
impl From<SessionState> for SessionContext { fn from(st: SessionState) -> Self { Self { st } } }
/// Model of the lock guard returned by `state_ref().write()`.
pub struct StateRef(std::sync::Mutex<SessionState>);
impl SessionContext {
    pub fn new() -> Self { Self::default() } pub fn new_with_state(st: SessionState) -> Self { Self { st } }
    pub fn task_ctx(&self) -> Arc<TaskContext> { self.st.task_ctx() } pub fn state(&self) -> SessionState { self.st.clone() }
    pub fn state_ref(&self) -> Arc<crate::shim::RwLock<SessionState>> { Arc::new(crate::shim::RwLock::new(self.st.clone())) }
    pub fn copied_config(&self) -> SessionConfig { self.st.config.clone() }
}
