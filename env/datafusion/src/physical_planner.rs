use crate::error::Result; use crate::execution::SessionState; use crate::logical_expr::LogicalPlan; use crate::physical_plan::ExecutionPlan;
use std::sync::Arc;
#[async_trait::async_trait]
pub trait PhysicalPlanner: Send + Sync { async fn create_physical_plan(&self, l: &LogicalPlan, s: &dyn crate::execution::Session) -> Result<Arc<dyn ExecutionPlan>>; }
#[async_trait::async_trait] pub trait ExtensionPlanner {}
#[derive(Default)] pub struct DefaultPhysicalPlanner;
impl DefaultPhysicalPlanner { pub fn with_extension_planners(_: Vec<Arc<dyn ExtensionPlanner + Send + Sync>>) -> Self { Self } }
#[async_trait::async_trait]
impl PhysicalPlanner for DefaultPhysicalPlanner { async fn create_physical_plan(&self, _l: &LogicalPlan, _s: &dyn crate::execution::Session) -> Result<Arc<dyn ExecutionPlan>> { crate::internal_err!("not modelled") } }
