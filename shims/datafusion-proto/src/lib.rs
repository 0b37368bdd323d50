//! Stand-in for datafusion-proto: prost messages for the scalar values and
//! physical expressions cnosdb ships between its nodes.
use std::sync::Arc;
use arrow::datatypes::{DataType, TimeUnit};
use datafusion::error::DataFusionError;
pub mod protobuf {
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct ScalarValue { #[prost(oneof = "scalar_value::Value", tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,33")] pub value: Option<scalar_value::Value> }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct Ts { #[prost(int64, optional, tag = "1")] pub v: Option<i64>, #[prost(uint32, tag = "2")] pub unit: u32, #[prost(string, optional, tag = "3")] pub tz: Option<String> }
    /// a typed NULL: the type code of `tcode`
    pub mod scalar_value {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Value {
            #[prost(bool, tag = "1")] BoolValue(bool), #[prost(string, tag = "2")] Utf8Value(String), #[prost(string, tag = "3")] LargeUtf8Value(String),
            #[prost(int32, tag = "4")] Int8Value(i32), #[prost(int32, tag = "5")] Int16Value(i32), #[prost(int32, tag = "6")] Int32Value(i32), #[prost(int64, tag = "7")] Int64Value(i64),
            #[prost(uint32, tag = "8")] Uint8Value(u32), #[prost(uint32, tag = "9")] Uint16Value(u32), #[prost(uint32, tag = "10")] Uint32Value(u32), #[prost(uint64, tag = "11")] Uint64Value(u64),
            #[prost(float, tag = "12")] Float32Value(f32), #[prost(double, tag = "13")] Float64Value(f64), #[prost(int32, tag = "14")] Date32Value(i32), #[prost(int64, tag = "15")] Date64Value(i64),
            #[prost(bytes, tag = "16")] BinaryValue(Vec<u8>), #[prost(message, tag = "17")] TimestampValue(super::Ts), #[prost(uint32, tag = "18")] TypedNull(u32), #[prost(bool, tag = "33")] NullValue(bool),
        }
    }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct PhysicalExprNode { #[prost(oneof = "physical_expr_node::ExprType", tags = "1,2,3,4,5,6,7,8,9")] pub expr_type: Option<physical_expr_node::ExprType> }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct PhysicalColumn { #[prost(string, tag = "1")] pub name: String, #[prost(uint32, tag = "2")] pub index: u32 }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct PhysicalBinary { #[prost(message, optional, boxed, tag = "1")] pub l: Option<Box<PhysicalExprNode>>, #[prost(message, optional, boxed, tag = "2")] pub r: Option<Box<PhysicalExprNode>>, #[prost(string, tag = "3")] pub op: String }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct PhysicalUnary { #[prost(message, optional, boxed, tag = "1")] pub expr: Option<Box<PhysicalExprNode>> }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct PhysicalCast { #[prost(message, optional, boxed, tag = "1")] pub expr: Option<Box<PhysicalExprNode>>, #[prost(uint32, tag = "2")] pub t: u32 }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct PhysicalInList { #[prost(message, optional, boxed, tag = "1")] pub expr: Option<Box<PhysicalExprNode>>, #[prost(message, repeated, tag = "2")] pub list: Vec<PhysicalExprNode>, #[prost(bool, tag = "3")] pub negated: bool }
    pub mod physical_expr_node {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum ExprType {
            #[prost(message, tag = "1")] Column(super::PhysicalColumn), #[prost(message, tag = "2")] Literal(super::ScalarValue), #[prost(message, tag = "3")] BinaryExpr(Box<super::PhysicalBinary>),
            #[prost(message, tag = "4")] NotExpr(Box<super::PhysicalUnary>), #[prost(message, tag = "5")] IsNullExpr(Box<super::PhysicalUnary>), #[prost(message, tag = "6")] IsNotNullExpr(Box<super::PhysicalUnary>),
            #[prost(message, tag = "7")] Cast(Box<super::PhysicalCast>), #[prost(message, tag = "8")] InList(Box<super::PhysicalInList>), #[prost(message, tag = "9")] Like(Box<super::PhysicalBinary>),
        }
    }
}
use datafusion::scalar::ScalarValue as SV;
fn tcode(t: &DataType) -> Option<u32> { TYPES.with(|l| l.iter().position(|x| x == t).map(|i| i as u32)) }
thread_local! { static TYPES: Vec<DataType> = { use DataType::*; let mut v = vec![Null, Boolean, Utf8, LargeUtf8, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Float32, Float64, Date32, Date64, Binary];
    for u in [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond] { v.push(Timestamp(u, None)) } v } }
fn tof(c: u32) -> Option<DataType> { TYPES.with(|l| l.get(c as usize).cloned()) }
impl TryFrom<&SV> for protobuf::ScalarValue { type Error = DataFusionError;
    fn try_from(v: &SV) -> Result<Self, DataFusionError> {
        use protobuf::scalar_value::Value as V;
        let ts = |v: &Option<i64>, unit, tz: &Option<Arc<str>>| V::TimestampValue(protobuf::Ts { v: *v, unit, tz: tz.as_ref().map(|s| s.to_string()) });
        let w = match v {
            SV::TimestampSecond(v, t) => ts(v, 0, t), SV::TimestampMillisecond(v, t) => ts(v, 1, t), SV::TimestampMicrosecond(v, t) => ts(v, 2, t), SV::TimestampNanosecond(v, t) => ts(v, 3, t),
            SV::Null => V::NullValue(true),
            n if n.is_null() => V::TypedNull(tcode(&n.get_datatype()).ok_or_else(|| DataFusionError::NotImplemented(format!("proto of {n:?}")))?),
            SV::Boolean(Some(b)) => V::BoolValue(*b), SV::Utf8(Some(s)) => V::Utf8Value(s.clone()), SV::LargeUtf8(Some(s)) => V::LargeUtf8Value(s.clone()),
            SV::Int8(Some(i)) => V::Int8Value(*i as i32), SV::Int16(Some(i)) => V::Int16Value(*i as i32), SV::Int32(Some(i)) => V::Int32Value(*i), SV::Int64(Some(i)) => V::Int64Value(*i),
            SV::UInt8(Some(i)) => V::Uint8Value(*i as u32), SV::UInt16(Some(i)) => V::Uint16Value(*i as u32), SV::UInt32(Some(i)) => V::Uint32Value(*i), SV::UInt64(Some(i)) => V::Uint64Value(*i),
            SV::Float32(Some(f)) => V::Float32Value(*f), SV::Float64(Some(f)) => V::Float64Value(*f), SV::Date32(Some(i)) => V::Date32Value(*i), SV::Date64(Some(i)) => V::Date64Value(*i), SV::Binary(Some(b)) => V::BinaryValue(b.clone()),
            o => return Err(DataFusionError::NotImplemented(format!("proto of {o:?}"))) };
        Ok(Self { value: Some(w) }) } }
impl TryFrom<&protobuf::ScalarValue> for SV { type Error = DataFusionError;
    fn try_from(v: &protobuf::ScalarValue) -> Result<SV, DataFusionError> {
        use protobuf::scalar_value::Value as V;
        Ok(match v.value.as_ref().ok_or_else(|| DataFusionError::Internal("Required field value is missing".into()))? {
            V::BoolValue(b) => SV::Boolean(Some(*b)), V::Utf8Value(s) => SV::Utf8(Some(s.clone())), V::LargeUtf8Value(s) => SV::LargeUtf8(Some(s.clone())),
            V::Int8Value(i) => SV::Int8(Some(*i as i8)), V::Int16Value(i) => SV::Int16(Some(*i as i16)), V::Int32Value(i) => SV::Int32(Some(*i)), V::Int64Value(i) => SV::Int64(Some(*i)),
            V::Uint8Value(i) => SV::UInt8(Some(*i as u8)), V::Uint16Value(i) => SV::UInt16(Some(*i as u16)), V::Uint32Value(i) => SV::UInt32(Some(*i)), V::Uint64Value(i) => SV::UInt64(Some(*i)),
            V::Float32Value(f) => SV::Float32(Some(*f)), V::Float64Value(f) => SV::Float64(Some(*f)), V::Date32Value(i) => SV::Date32(Some(*i)), V::Date64Value(i) => SV::Date64(Some(*i)), V::BinaryValue(b) => SV::Binary(Some(b.clone())),
            V::TimestampValue(t) => { let z: Option<Arc<str>> = t.tz.as_deref().map(Arc::from); match t.unit { 0 => SV::TimestampSecond(t.v, z), 1 => SV::TimestampMillisecond(t.v, z), 2 => SV::TimestampMicrosecond(t.v, z), _ => SV::TimestampNanosecond(t.v, z) } }
            V::TypedNull(c) => SV::try_from(&tof(*c).ok_or_else(|| DataFusionError::Internal("type".into()))?)?, V::NullValue(_) => SV::Null }) } }
use datafusion::physical_expr::{expressions as x, PhysicalExpr};
use protobuf::physical_expr_node::ExprType as E;
use protobuf::*;
impl TryFrom<Arc<dyn PhysicalExpr>> for PhysicalExprNode { type Error = DataFusionError;
    fn try_from(e: Arc<dyn PhysicalExpr>) -> Result<Self, DataFusionError> {
        let go = |e: &Arc<dyn PhysicalExpr>| -> Result<Option<Box<PhysicalExprNode>>, DataFusionError> { Ok(Some(Box::new(e.clone().try_into()?))) };
        let a = e.as_any();
        let t = if let Some(c) = a.downcast_ref::<x::Column>() { E::Column(PhysicalColumn { name: c.name().into(), index: c.index() as u32 }) }
        else if let Some(l) = a.downcast_ref::<x::Literal>() { E::Literal(l.value().try_into()?) }
        else if let Some(b) = a.downcast_ref::<x::BinaryExpr>() { E::BinaryExpr(Box::new(PhysicalBinary { l: go(b.left())?, r: go(b.right())?, op: format!("{:?}", b.op()) })) }
        else if let Some(n) = a.downcast_ref::<x::NotExpr>() { E::NotExpr(Box::new(PhysicalUnary { expr: go(n.arg())? })) }
        else if let Some(n) = a.downcast_ref::<x::IsNullExpr>() { E::IsNullExpr(Box::new(PhysicalUnary { expr: go(n.arg())? })) }
        else if let Some(n) = a.downcast_ref::<x::IsNotNullExpr>() { E::IsNotNullExpr(Box::new(PhysicalUnary { expr: go(n.arg())? })) }
        else if let Some(c) = a.downcast_ref::<x::CastExpr>() { E::Cast(Box::new(PhysicalCast { expr: go(c.expr())?, t: tcode(c.cast_type()).ok_or_else(|| DataFusionError::NotImplemented("cast type".into()))? })) }
        else if let Some(i) = a.downcast_ref::<x::InListExpr>() { E::InList(Box::new(PhysicalInList { expr: go(&i.expr)?, list: i.list.iter().map(|e| e.clone().try_into()).collect::<Result<_, DataFusionError>>()?, negated: i.negated })) }
        else if let Some(l) = a.downcast_ref::<x::LikeExpr>() { E::Like(Box::new(PhysicalBinary { l: go(&l.expr)?, r: go(&l.pattern)?, op: if l.negated { "NOT" } else { "" }.into() })) }
        else { return Err(DataFusionError::NotImplemented(format!("physical_plan::to_proto() unsupported expression {e:?}"))) };
        Ok(PhysicalExprNode { expr_type: Some(t) }) } }
pub mod physical_plan { pub mod from_proto {
    use super::super::*;
    use datafusion::logical_expr::Operator;
    fn op(s: &str) -> Result<Operator, DataFusionError> { use Operator::*; for o in [Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom, RegexMatch, BitwiseAnd, BitwiseOr] { if format!("{o:?}") == s { return Ok(o); } } Err(DataFusionError::Internal(format!("Unsupported binary operator '{s}'"))) }
    pub fn parse_physical_expr(p: &PhysicalExprNode, r: &dyn datafusion::execution::FunctionRegistry, s: &arrow::datatypes::Schema) -> Result<Arc<dyn PhysicalExpr>, DataFusionError> {
        let go = |e: &Option<Box<PhysicalExprNode>>| parse_physical_expr(e.as_ref().ok_or_else(|| DataFusionError::Internal("Missing required field".into()))?, r, s);
        Ok(match p.expr_type.as_ref().ok_or_else(|| DataFusionError::Internal("Unexpected empty physical expression".into()))? {
            E::Column(c) => Arc::new(x::Column::new(&c.name, c.index as usize)), E::Literal(l) => Arc::new(x::Literal::new(l.try_into()?)),
            E::BinaryExpr(b) => Arc::new(x::BinaryExpr::new(go(&b.l)?, op(&b.op)?, go(&b.r)?)), E::NotExpr(e) => Arc::new(x::NotExpr::new(go(&e.expr)?)),
            E::IsNullExpr(e) => Arc::new(x::IsNullExpr::new(go(&e.expr)?)), E::IsNotNullExpr(e) => Arc::new(x::IsNotNullExpr::new(go(&e.expr)?)),
            E::Cast(c) => Arc::new(x::CastExpr::new(go(&c.expr)?, tof(c.t).unwrap(), None)),
            E::InList(i) => Arc::new(x::InListExpr { expr: go(&i.expr)?, list: i.list.iter().map(|e| parse_physical_expr(e, r, s)).collect::<Result<_, _>>()?, negated: i.negated }),
            E::Like(l) => Arc::new(x::LikeExpr { negated: l.op == "NOT", expr: go(&l.l)?, pattern: go(&l.r)? }) }) }
} }
