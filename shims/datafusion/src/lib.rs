//! Stand-in for the fork of DataFusion 27 that cnosdb depends on (a git
//! dependency, not available offline): the types and functions the storage,
//! model and metadata crates call, with DataFusion's semantics.
#![allow(clippy::all, dead_code, unused)]
pub use arrow;
pub mod error;
pub mod scalar;
pub mod expr;
pub mod physical;
pub mod df_metrics;
pub mod pruning;
pub mod misc;
pub type SqlParserValue = sql::sqlparser::ast::Value;

pub mod common {
    pub use crate::error::{DataFusionError, Result, SchemaError};
    pub use crate::expr::{Column, DFField, DFSchema, DFSchemaRef};
    pub use crate::scalar::ScalarValue;
    pub mod cast {
        use arrow::array::{Array, BooleanArray};
        pub fn as_boolean_array(a: &dyn Array) -> crate::error::Result<&BooleanArray> {
            a.as_any().downcast_ref::<BooleanArray>().ok_or_else(|| crate::error::DataFusionError::Internal(format!("could not cast value to BooleanArray: {:?}", a.data_type())))
        }
    }
    pub mod tree_node { pub use crate::expr::tree::*; }
}
pub mod logical_expr {
    pub use crate::expr::*;
    pub use crate::expr::expr_fn;
    pub use crate::misc::{AggregateUDF, ScalarUDF, WindowUDF};
    #[derive(Debug, Clone, PartialEq)]
    pub enum BuiltinScalarFunction { Abs, Random }
}
pub mod prelude { pub use crate::expr::{Column, Expr}; pub use crate::expr::expr_fn::*; }
pub mod sql { pub use crate::misc::table_ref::TableReference; pub mod sqlparser { pub mod ast { pub use crate::misc::ast::*; } } }
pub mod datasource { pub use crate::misc::listing; pub use crate::misc::file_format; }
pub mod physical_expr {
    pub use crate::physical::{create_physical_expr, ColumnarValue, PhysicalExpr};
    pub mod execution_props { #[derive(Default, Clone, Debug)] pub struct ExecutionProps; impl ExecutionProps { pub fn new() -> Self { Self } } }
    pub mod expressions { pub use crate::physical::exprs::*; }
}
pub mod physical_plan {
    pub use crate::physical::PhysicalExpr;
    pub use crate::physical::ColumnarValue;
    pub mod expressions { pub use crate::physical::exprs::*; }
    pub mod metrics { pub use crate::df_metrics::*; }
    pub mod sorts { pub mod cursor { pub use crate::misc::cursor::*; } }
    pub mod common { 
        use tokio::task::JoinHandle;
        pub struct AbortOnDropMany<T>(pub Vec<JoinHandle<T>>);
        impl<T> Drop for AbortOnDropMany<T> { fn drop(&mut self) { for h in &self.0 { h.abort() } } }
    }
    pub trait RecordBatchStream: futures::Stream<Item = crate::error::Result<arrow::record_batch::RecordBatch>> { fn schema(&self) -> arrow::datatypes::SchemaRef; }
    pub type SendableRecordBatchStream = std::pin::Pin<Box<dyn RecordBatchStream + Send>>;
}
pub mod physical_optimizer { pub mod pruning { pub use crate::pruning::*; } }
pub mod execution { pub use crate::misc::FunctionRegistry; pub mod memory_pool { pub use crate::misc::pool::*; } }
pub mod parquet { pub mod data_type { pub use crate::misc::AsBytes; } }

#[macro_export]
macro_rules! assert_batches_eq {
    ($expected: expr, $batches: expr) => {
        let want: Vec<String> = $expected.iter().map(|s| s.to_string()).collect();
        let got = arrow::util::pretty::pretty_format_batches($batches).unwrap().to_string();
        let got: Vec<String> = got.trim().lines().map(|s| s.to_string()).collect();
        assert_eq!(want, got);
    };
}
