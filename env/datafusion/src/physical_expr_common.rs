//! `datafusion_physical_expr_common`: metrics are DataFusion's own sources (see gen).
pub use crate::physical_plan::metrics;
pub mod physical_expr { pub use crate::physical_expr::PhysicalExpr; }
pub mod sort_expr { pub use crate::physical_expr::{LexOrdering, PhysicalSortExpr}; #[derive(Debug, Clone)] pub struct OrderingRequirements; }
