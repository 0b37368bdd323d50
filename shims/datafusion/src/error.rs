use std::error::Error;
use std::fmt::{Display, Formatter};
use std::io;
use arrow::error::ArrowError;
pub type Result<T, E = DataFusionError> = std::result::Result<T, E>;
pub type GenericError = Box<dyn Error + Send + Sync>;

#[derive(Debug, Clone, PartialEq)]
pub enum SchemaError { FieldNotFound { field: String }, Other(String) }
impl Display for SchemaError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }

#[derive(Debug)]
pub enum DataFusionError {
    ArrowError(ArrowError),
    IoError(io::Error),
    NotImplemented(String),
    Internal(String),
    Plan(String),
    SchemaError(SchemaError),
    Execution(String),
    ResourcesExhausted(String),
    External(GenericError),
    Context(String, Box<DataFusionError>),
    Substrait(String),
}
impl DataFusionError {
    pub fn context(self, d: impl Into<String>) -> Self { Self::Context(d.into(), Box::new(self)) }
}
impl Display for DataFusionError {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::ArrowError(d) => write!(f, "Arrow error: {d}"),
            Self::IoError(d) => write!(f, "IO error: {d}"),
            Self::NotImplemented(d) => write!(f, "This feature is not implemented: {d}"),
            Self::Internal(d) => write!(f, "Internal error: {d}. This was likely caused by a bug in DataFusion's code and we would welcome that you file an bug report in our issue tracker"),
            Self::Plan(d) => write!(f, "Error during planning: {d}"),
            Self::SchemaError(d) => write!(f, "Schema error: {d}"),
            Self::Execution(d) => write!(f, "Execution error: {d}"),
            Self::ResourcesExhausted(d) => write!(f, "Resources exhausted: {d}"),
            Self::External(d) => write!(f, "External error: {d}"),
            Self::Context(c, e) => write!(f, "{c}\ncaused by\n{e}"),
            Self::Substrait(d) => write!(f, "Substrait error: {d}"),
        }
    }
}
impl Error for DataFusionError {}
impl From<io::Error> for DataFusionError { fn from(e: io::Error) -> Self { Self::IoError(e) } }
impl From<ArrowError> for DataFusionError { fn from(e: ArrowError) -> Self { Self::ArrowError(e) } }
impl From<GenericError> for DataFusionError { fn from(e: GenericError) -> Self { Self::External(e) } }
impl From<DataFusionError> for ArrowError {
    fn from(e: DataFusionError) -> Self {
        match e { DataFusionError::ArrowError(e) => e, DataFusionError::External(e) => ArrowError::ExternalError(e), o => ArrowError::ExternalError(Box::new(o)) }
    }
}
impl From<DataFusionError> for io::Error { fn from(e: DataFusionError) -> Self { io::Error::new(io::ErrorKind::Other, e) } }
