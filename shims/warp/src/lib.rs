//! Stand-in: only the error marker trait; the HTTP routes are not staged.
pub use hyper;
pub mod reject { pub trait Reject: std::fmt::Debug + Sized + Send + Sync + 'static {} }
