pub use crate::execution::config::SessionConfig;
pub use crate::execution::SessionContext;
