use std::sync::Arc;
use std::fmt;
pub type GenericError = Box<dyn std::error::Error + Send + Sync>;
pub type Result<T, E = DataFusionError> = std::result::Result<T, E>;
pub type SharedResult<T> = std::result::Result<T, Arc<DataFusionError>>;
#[derive(Debug)]
pub enum ArrowError { External(String), ComputeError(String) }
#[derive(Debug)]
pub enum ParquetError { General(String) }
pub enum DataFusionError {
    ArrowError(Box<ArrowError>, Option<String>),
    NotImplemented(String),
    Internal(String),
    Plan(String),
    Configuration(String),
    Execution(String),
    External(GenericError),
    ResourcesExhausted(String),
    Context(String, Box<DataFusionError>),
    Shared(Arc<DataFusionError>),
}
impl fmt::Debug for DataFusionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("DataFusionError") } }
impl fmt::Display for DataFusionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("DataFusionError") } }
impl std::error::Error for DataFusionError {}
impl From<fmt::Error> for DataFusionError { fn from(_: fmt::Error) -> Self { Self::Execution(String::new()) } }
impl From<std::io::Error> for DataFusionError { fn from(e: std::io::Error) -> Self { Self::External(Box::new(e)) } }
impl From<ArrowError> for DataFusionError { fn from(e: ArrowError) -> Self { Self::ArrowError(Box::new(e), None) } }
impl From<GenericError> for DataFusionError { fn from(e: GenericError) -> Self { Self::External(e) } }
impl From<DataFusionError> for std::io::Error { fn from(e: DataFusionError) -> Self { std::io::Error::other(e) } }
impl DataFusionError {
    pub fn context(self, d: impl Into<String>) -> Self { Self::Context(d.into(), Box::new(self)) }
    pub fn message(&self) -> String { String::new() }
    pub fn strip_backtrace(&self) -> String { String::new() }
    pub fn is_resources_exhausted(&self) -> bool { matches!(self, Self::ResourcesExhausted(_)) }
}

/// Native builds can show the messages the model drops (development aid).
#[cfg(symex)] #[inline(always)] pub fn note(_f: &dyn Fn() -> String, _file: &str, _l: u32) {}
#[cfg(not(symex))] pub fn note(f: &dyn Fn() -> String, file: &str, l: u32) { if std::env::var("VERIF_ERRS").is_ok() { eprintln!("ERR {file}:{l}: {}", f()); } }
