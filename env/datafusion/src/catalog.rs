pub use crate::execution::Session;
pub mod memory { pub use crate::datasource::memory::DataSourceExec; }
