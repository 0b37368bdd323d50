use std::any::Any;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;
use arrow::array::*;
use arrow::compute;
use arrow::datatypes::*;
use arrow::record_batch::RecordBatch;
use crate::error::{DataFusionError, Result};
use crate::expr::{DFSchema, Expr, Operator};
use crate::scalar::ScalarValue;

#[derive(Clone, Debug)]
pub enum ColumnarValue { Array(ArrayRef), Scalar(ScalarValue) }
impl ColumnarValue {
    pub fn into_array(self, n: usize) -> ArrayRef { match self { Self::Array(a) => a, Self::Scalar(s) => s.to_array_of_size(n) } }
    pub fn data_type(&self) -> DataType { match self { Self::Array(a) => a.data_type().clone(), Self::Scalar(s) => s.get_datatype() } }
}
pub trait PhysicalExpr: Send + Sync + Display + Debug {
    fn as_any(&self) -> &dyn Any;
    fn data_type(&self, s: &Schema) -> Result<DataType>;
    fn nullable(&self, s: &Schema) -> Result<bool>;
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue>;
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>>;
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>>;
}
pub mod exprs {
    use super::*;
    type P = Arc<dyn PhysicalExpr>;
    #[derive(Debug, Hash, PartialEq, Eq, Clone)] pub struct Column { name: String, index: usize }
    impl Column { pub fn new(name: &str, index: usize) -> Self { Self { name: name.into(), index } } pub fn new_with_schema(name: &str, s: &Schema) -> Result<Self> { Ok(Self::new(name, s.index_of(name)?)) } pub fn name(&self) -> &str { &self.name } pub fn index(&self) -> usize { self.index } }
    impl Display for Column { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}@{}", self.name, self.index) } }
    impl PhysicalExpr for Column {
        fn as_any(&self) -> &dyn Any { self }
        fn data_type(&self, s: &Schema) -> Result<DataType> { self.check(s)?; Ok(s.field(self.index).data_type().clone()) }
        fn nullable(&self, s: &Schema) -> Result<bool> { self.check(s)?; Ok(s.field(self.index).is_nullable()) }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> { self.check(b.schema().as_ref())?; Ok(ColumnarValue::Array(b.column(self.index).clone())) }
        fn children(&self) -> Vec<P> { vec![] }
        fn with_new_children(self: Arc<Self>, _: Vec<P>) -> Result<P> { Ok(self) }
    }
    impl Column { fn check(&self, s: &Schema) -> Result<()> { if self.index < s.fields.len() { Ok(()) } else {
        Err(DataFusionError::Internal(format!("PhysicalExpr Column references column '{}' at index {} (zero-based) but input schema only has {} columns", self.name, self.index, s.fields.len()))) } } }
    #[derive(Debug, PartialEq, Eq, Clone)] pub struct Literal { value: ScalarValue }
    impl Literal { pub fn new(value: ScalarValue) -> Self { Self { value } } pub fn value(&self) -> &ScalarValue { &self.value } }
    pub fn lit<T: crate::expr::expr_fn::Literal>(t: T) -> P { match t.lit() { Expr::Literal(v) => Arc::new(Literal::new(v)), _ => unreachable!() } }
    pub fn col(n: &str, s: &Schema) -> Result<P> { Ok(Arc::new(Column::new_with_schema(n, s)?)) }
    impl Display for Literal { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.value) } }
    impl PhysicalExpr for Literal {
        fn as_any(&self) -> &dyn Any { self }
        fn data_type(&self, _: &Schema) -> Result<DataType> { Ok(self.value.get_datatype()) }
        fn nullable(&self, _: &Schema) -> Result<bool> { Ok(self.value.is_null()) }
        fn evaluate(&self, _: &RecordBatch) -> Result<ColumnarValue> { Ok(ColumnarValue::Scalar(self.value.clone())) }
        fn children(&self) -> Vec<P> { vec![] }
        fn with_new_children(self: Arc<Self>, _: Vec<P>) -> Result<P> { Ok(self) }
    }
    #[derive(Debug, Clone)] pub struct BinaryExpr { left: P, op: Operator, right: P }
    impl BinaryExpr { pub fn new(left: P, op: Operator, right: P) -> Self { Self { left, op, right } } pub fn left(&self) -> &P { &self.left } pub fn right(&self) -> &P { &self.right } pub fn op(&self) -> &Operator { &self.op } }
    impl Display for BinaryExpr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{} {} {}", self.left, self.op, self.right) } }
    pub(crate) fn common(l: &DataType, r: &DataType) -> Option<DataType> {
        use DataType::*;
        if l == r { return Some(l.clone()); }
        Some(match (l, r) {
            (Null, t) | (t, Null) => t.clone(),
            (Float64 | Float32, _) if r.is_numeric() => Float64, (_, Float64 | Float32) if l.is_numeric() => Float64,
            (Int64 | UInt64 | Int32 | UInt32 | Int16 | UInt16 | Int8 | UInt8, Int64 | UInt64 | Int32 | UInt32 | Int16 | UInt16 | Int8 | UInt8) => Int64,
            (Timestamp(a, t), Timestamp(b, _)) => Timestamp(if rank(a) > rank(b) { a.clone() } else { b.clone() }, t.clone()),
            (Timestamp(u, t), Utf8) | (Utf8, Timestamp(u, t)) => Timestamp(u.clone(), t.clone()),
            (Timestamp(u, t), Int64) | (Int64, Timestamp(u, t)) => Timestamp(u.clone(), t.clone()),
            (Utf8, t) | (t, Utf8) if t.is_numeric() => Utf8,
            _ => return None,
        })
    }
    fn rank(u: &TimeUnit) -> u8 { match u { TimeUnit::Second => 0, TimeUnit::Millisecond => 1, TimeUnit::Microsecond => 2, TimeUnit::Nanosecond => 3 } }
    impl PhysicalExpr for BinaryExpr {
        fn as_any(&self) -> &dyn Any { self }
        fn data_type(&self, s: &Schema) -> Result<DataType> { match self.op { Operator::Plus | Operator::Minus | Operator::Multiply | Operator::Divide | Operator::Modulo => {
            let (l, r) = (self.left.data_type(s)?, self.right.data_type(s)?); common(&l, &r).ok_or_else(|| DataFusionError::Internal(format!("no common type {l} {r}"))) } _ => Ok(DataType::Boolean) } }
        fn nullable(&self, s: &Schema) -> Result<bool> { Ok(self.left.nullable(s)? || self.right.nullable(s)?) }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            let n = b.num_rows();
            let (l, r) = (self.left.evaluate(b)?, self.right.evaluate(b)?);
            if matches!(self.op, Operator::And | Operator::Or) {
                let (l, r) = (to_bool(l.into_array(n))?, to_bool(r.into_array(n))?);
                let o = if self.op == Operator::And { compute::and_kleene(&l, &r)? } else { compute::or_kleene(&l, &r)? };
                return Ok(ColumnarValue::Array(Arc::new(o)));
            }
            let (l, r) = (l.into_array(n), r.into_array(n));
            let t = common(l.data_type(), r.data_type()).ok_or_else(|| DataFusionError::Internal(format!("The type of {} {} {} of binary physical should be same", l.data_type(), self.op, r.data_type())))?;
            let (l, r) = (compute::cast(&l, &t)?, compute::cast(&r, &t)?);
            use arrow::compute as c;
            let o: ArrayRef = match self.op {
                Operator::Eq => Arc::new(c::eq_dyn(&l, &r)?), Operator::NotEq => Arc::new(c::neq_dyn(&l, &r)?), Operator::Lt => Arc::new(c::lt_dyn(&l, &r)?),
                Operator::LtEq => Arc::new(c::lt_eq_dyn(&l, &r)?), Operator::Gt => Arc::new(c::gt_dyn(&l, &r)?), Operator::GtEq => Arc::new(c::gt_eq_dyn(&l, &r)?),
                o => return Err(DataFusionError::NotImplemented(format!("operator {o}"))),
            };
            Ok(ColumnarValue::Array(o))
        }
        fn children(&self) -> Vec<P> { vec![self.left.clone(), self.right.clone()] }
        fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Arc::new(Self::new(c[0].clone(), self.op, c[1].clone()))) }
    }
    pub fn binary(l: P, op: Operator, r: P, _s: &Schema) -> Result<P> { Ok(Arc::new(BinaryExpr::new(l, op, r))) }
    fn to_bool(a: ArrayRef) -> Result<BooleanArray> { let a = compute::cast(&a, &DataType::Boolean)?; Ok(a.as_any().downcast_ref::<BooleanArray>().unwrap().clone()) }
    macro_rules! unary { ($n:ident, $fmt:expr, |$a:ident| $body:expr) => {
        #[derive(Debug, Clone)] pub struct $n { pub arg: P }
        impl $n { pub fn new(arg: P) -> Self { Self { arg } } pub fn arg(&self) -> &P { &self.arg } }
        impl Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, $fmt, self.arg) } }
        impl PhysicalExpr for $n {
            fn as_any(&self) -> &dyn Any { self } fn data_type(&self, _: &Schema) -> Result<DataType> { Ok(DataType::Boolean) } fn nullable(&self, _: &Schema) -> Result<bool> { Ok(true) }
            fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> { let $a = self.arg.evaluate(b)?.into_array(b.num_rows()); let o: BooleanArray = $body; Ok(ColumnarValue::Array(Arc::new(o))) }
            fn children(&self) -> Vec<P> { vec![self.arg.clone()] } fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Arc::new(Self::new(c[0].clone()))) }
        } } }
    unary!(NotExpr, "NOT {}", |a| compute::not(&to_bool(a)?)?);
    unary!(IsNullExpr, "{} IS NULL", |a| compute::is_null(a.as_ref())?);
    unary!(IsNotNullExpr, "{} IS NOT NULL", |a| compute::is_not_null(a.as_ref())?);
    #[derive(Debug, Clone)] pub struct CastExpr { pub expr: P, pub cast_type: DataType }
    impl CastExpr { pub fn new(expr: P, cast_type: DataType, _o: Option<()>) -> Self { Self { expr, cast_type } } pub fn expr(&self) -> &P { &self.expr } pub fn cast_type(&self) -> &DataType { &self.cast_type } }
    impl Display for CastExpr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "CAST({} AS {:?})", self.expr, self.cast_type) } }
    impl PhysicalExpr for CastExpr {
        fn as_any(&self) -> &dyn Any { self } fn data_type(&self, _: &Schema) -> Result<DataType> { Ok(self.cast_type.clone()) } fn nullable(&self, s: &Schema) -> Result<bool> { self.expr.nullable(s) }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> { let a = self.expr.evaluate(b)?.into_array(b.num_rows()); Ok(ColumnarValue::Array(compute::cast_with_options(&a, &self.cast_type, &compute::CastOptions { safe: false, ..Default::default() })?)) }
        fn children(&self) -> Vec<P> { vec![self.expr.clone()] } fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Arc::new(Self::new(c[0].clone(), self.cast_type.clone(), None))) }
    }
    #[derive(Debug, Clone)] pub struct InListExpr { pub expr: P, pub list: Vec<P>, pub negated: bool }
    impl Display for InListExpr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{} {}IN ({:?})", self.expr, if self.negated { "NOT " } else { "" }, self.list) } }
    impl PhysicalExpr for InListExpr {
        fn as_any(&self) -> &dyn Any { self } fn data_type(&self, _: &Schema) -> Result<DataType> { Ok(DataType::Boolean) } fn nullable(&self, _: &Schema) -> Result<bool> { Ok(true) }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            let mut e: P = Arc::new(Literal::new(ScalarValue::Boolean(Some(false))));
            for v in &self.list { e = Arc::new(BinaryExpr::new(e, Operator::Or, Arc::new(BinaryExpr::new(self.expr.clone(), Operator::Eq, v.clone())))); }
            if self.negated { e = Arc::new(NotExpr::new(e)); }
            e.evaluate(b)
        }
        fn children(&self) -> Vec<P> { std::iter::once(self.expr.clone()).chain(self.list.iter().cloned()).collect() }
        fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Arc::new(Self { expr: c[0].clone(), list: c[1..].to_vec(), negated: self.negated })) }
    }
    #[derive(Debug, Clone)] pub struct LikeExpr { pub negated: bool, pub expr: P, pub pattern: P }
    impl Display for LikeExpr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{} {}LIKE {}", self.expr, if self.negated { "NOT " } else { "" }, self.pattern) } }
    impl PhysicalExpr for LikeExpr {
        fn as_any(&self) -> &dyn Any { self } fn data_type(&self, _: &Schema) -> Result<DataType> { Ok(DataType::Boolean) } fn nullable(&self, _: &Schema) -> Result<bool> { Ok(true) }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> { let n = b.num_rows(); let (l, r) = (self.expr.evaluate(b)?.into_array(n), self.pattern.evaluate(b)?.into_array(n));
            let (l, r) = (l.as_any().downcast_ref::<StringArray>().unwrap(), r.as_any().downcast_ref::<StringArray>().unwrap());
            Ok(ColumnarValue::Array(Arc::new(if self.negated { compute::nlike_utf8(l, r)? } else { compute::like_utf8(l, r)? }))) }
        fn children(&self) -> Vec<P> { vec![self.expr.clone(), self.pattern.clone()] }
        fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Arc::new(Self { negated: self.negated, expr: c[0].clone(), pattern: c[1].clone() })) }
    }
}
pub fn create_physical_expr(e: &Expr, df: &DFSchema, s: &Schema, p: &crate::physical_expr::execution_props::ExecutionProps) -> Result<Arc<dyn PhysicalExpr>> {
    use exprs::*;
    let go = |e: &Expr| create_physical_expr(e, df, s, p);
    Ok(match e {
        Expr::Alias(e, _) => go(e)?,
        Expr::Column(c) => { let i = df.index_of_column(c)?; Arc::new(Column::new(&c.name, i)) }
        Expr::Literal(v) => Arc::new(Literal::new(v.clone())),
        Expr::BinaryExpr(b) => Arc::new(BinaryExpr::new(go(&b.left)?, b.op, go(&b.right)?)),
        Expr::Not(e) => Arc::new(NotExpr::new(go(e)?)), Expr::IsNull(e) => Arc::new(IsNullExpr::new(go(e)?)), Expr::IsNotNull(e) => Arc::new(IsNotNullExpr::new(go(e)?)),
        Expr::Cast(c) => Arc::new(CastExpr::new(go(&c.expr)?, c.data_type.clone(), None)),
        Expr::InList(i) => Arc::new(InListExpr { expr: go(&i.expr)?, list: i.list.iter().map(go).collect::<Result<_>>()?, negated: i.negated }),
        Expr::Like(l) => Arc::new(LikeExpr { negated: l.negated, expr: go(&l.expr)?, pattern: go(&l.pattern)? }),
        Expr::Between(b) => { let x: Arc<dyn PhysicalExpr> = Arc::new(BinaryExpr::new(Arc::new(BinaryExpr::new(go(&b.expr)?, Operator::GtEq, go(&b.low)?)), Operator::And, Arc::new(BinaryExpr::new(go(&b.expr)?, Operator::LtEq, go(&b.high)?))));
            if b.negated { Arc::new(NotExpr::new(x)) } else { x } }
        o => return Err(DataFusionError::NotImplemented(format!("Physical plan does not support logical expression {o:?}"))),
    })
}
