//! Min/max pruning: `prune` answers false for a container only when the
//! statistics prove no row of it can satisfy the predicate.
use std::sync::Arc;
use arrow::array::*;
use arrow::datatypes::*;
use crate::error::{DataFusionError, Result};
use crate::expr::{Column, Operator};
use crate::physical::exprs::*;
use crate::physical::PhysicalExpr;
use crate::scalar::ScalarValue;
pub trait PruningStatistics {
    fn min_values(&self, c: &Column) -> Option<ArrayRef>;
    fn max_values(&self, c: &Column) -> Option<ArrayRef>;
    fn num_containers(&self) -> usize;
    fn null_counts(&self, c: &Column) -> Option<ArrayRef>;
}
pub struct PruningPredicate { expr: Arc<dyn PhysicalExpr>, schema: SchemaRef }
impl PruningPredicate {
    pub fn try_new(expr: Arc<dyn PhysicalExpr>, schema: SchemaRef) -> Result<Self> { Ok(Self { expr, schema }) }
    pub fn prune<S: PruningStatistics>(&self, s: &S) -> Result<Vec<bool>> { (0..s.num_containers()).map(|i| self.may(&self.expr, s, i)).collect() }
    fn stat(&self, a: Option<ArrayRef>, c: &crate::physical::exprs::Column, n: usize, i: usize) -> Result<Option<ScalarValue>> {
        let Some(a) = a else { return Ok(None) };
        if a.len() != n { return Err(DataFusionError::Internal(format!("mismatched statistics length. Expected {n}, got {}", a.len()))); }
        let t = self.schema.field_with_name(c.name())?.data_type().clone();
        let a = arrow::compute::cast(&a, &t)?;
        Ok(if a.is_null(i) { None } else { Some(ScalarValue::try_from_array(&a, i)?) })
    }
    fn may<S: PruningStatistics>(&self, e: &Arc<dyn PhysicalExpr>, s: &S, i: usize) -> Result<bool> {
        if let Some(b) = e.as_any().downcast_ref::<BinaryExpr>() {
            match b.op() {
                Operator::And => return Ok(self.may(b.left(), s, i)? & self.may(b.right(), s, i)?),
                Operator::Or => return Ok(self.may(b.left(), s, i)? | self.may(b.right(), s, i)?),
                _ => {}
            }
            type C = crate::physical::exprs::Column;
            let (c, op, v) = match (b.left().as_any().downcast_ref::<C>(), b.right().as_any().downcast_ref::<Literal>(), b.left().as_any().downcast_ref::<Literal>(), b.right().as_any().downcast_ref::<C>()) {
                (Some(c), Some(l), _, _) => (c, *b.op(), l.value().clone()),
                (_, _, Some(l), Some(c)) => match b.op().swap() { Some(o) => (c, o, l.value().clone()), None => return Ok(true) },
                _ => return Ok(true),
            };
            let n = s.num_containers();
            let col = Column::from_name(c.name());
            let (min, max) = (self.stat(s.min_values(&col), c, n, i)?, self.stat(s.max_values(&col), c, n, i)?);
            let cmp = |a: &Option<ScalarValue>| -> Option<std::cmp::Ordering> { let a = a.as_ref()?; if v.is_null() { return None; }
                let t = common(&a.get_datatype(), &v.get_datatype())?;
                let (x, y) = (arrow::compute::cast(&a.to_array(), &t).ok()?, arrow::compute::cast(&v.to_array(), &t).ok()?);
                ScalarValue::try_from_array(&x, 0).ok()?.partial_cmp(&ScalarValue::try_from_array(&y, 0).ok()?) };
            use std::cmp::Ordering::*;
            let (mn, mx) = (cmp(&min), cmp(&max));
            return Ok(match op {
                Operator::Eq => mn != Some(Greater) && mx != Some(Less),
                Operator::NotEq => !(mn == Some(Equal) && mx == Some(Equal)),
                Operator::Gt => !matches!(mx, Some(Less | Equal)), Operator::GtEq => mx != Some(Less),
                Operator::Lt => !matches!(mn, Some(Greater | Equal)), Operator::LtEq => mn != Some(Greater),
                _ => true,
            });
        }
        if let Some(l) = e.as_any().downcast_ref::<Literal>() { if let ScalarValue::Boolean(Some(b)) = l.value() { return Ok(*b); } }
        Ok(true)
    }
}
