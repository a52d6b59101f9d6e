//! Environment model of the `datafusion` crate (v55), used only for symbolic execution of
//! datafusion-distributed's own sources. Types, traits and names mirror DataFusion's public API;
//! bodies keep the documented contract and drop everything that the properties do not depend on.
#![allow(unused, clippy::all)]
#[macro_use]
pub mod macros;
pub mod arrow;
pub mod catalog;
pub mod common;
pub mod config;
pub mod datasource;
pub mod error;
pub mod execution;
pub mod logical_expr;
pub mod physical_expr;
pub mod physical_expr_common;
pub mod physical_plan;
pub mod physical_planner;
pub mod prelude;
pub mod shim;
pub mod sql;
pub use error::{DataFusionError, Result};
pub mod parquet { pub mod errors { pub use crate::error::ParquetError; } }
