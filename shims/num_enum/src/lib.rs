pub use num_enum_derive::{IntoPrimitive, TryFromPrimitive};
pub struct TryFromPrimitiveError<T> { pub number: u64, pub _t: std::marker::PhantomData<T> }
impl<T> std::fmt::Debug for TryFromPrimitiveError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "TryFromPrimitiveError({})", self.number) } }
impl<T> std::fmt::Display for TryFromPrimitiveError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "No discriminant matches the value `{}`", self.number) } }
impl<T> std::error::Error for TryFromPrimitiveError<T> {}
