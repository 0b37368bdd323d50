//! MiniVec is Vec (the original differs only in its layout).
pub type MiniVec<T> = Vec<T>;
#[macro_export] macro_rules! mini_vec { ($($t:tt)*) => { vec![$($t)*] } }
