//! ScalarValue with the variants, ordering, equality and conversions of DataFusion 27.
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use arrow::array::*;
use arrow::datatypes::*;
use ordered_float::OrderedFloat;
use crate::error::{DataFusionError, Result};

#[derive(Clone)]
pub enum ScalarValue {
    Null,
    Boolean(Option<bool>),
    Float32(Option<f32>),
    Float64(Option<f64>),
    Decimal128(Option<i128>, u8, i8),
    Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>),
    UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>),
    Utf8(Option<String>), LargeUtf8(Option<String>),
    Binary(Option<Vec<u8>>), FixedSizeBinary(i32, Option<Vec<u8>>), LargeBinary(Option<Vec<u8>>),
    List(Option<Vec<ScalarValue>>, FieldRef),
    Date32(Option<i32>), Date64(Option<i64>),
    Time32Second(Option<i32>), Time32Millisecond(Option<i32>), Time64Microsecond(Option<i64>), Time64Nanosecond(Option<i64>),
    TimestampSecond(Option<i64>, Option<Arc<str>>), TimestampMillisecond(Option<i64>, Option<Arc<str>>),
    TimestampMicrosecond(Option<i64>, Option<Arc<str>>), TimestampNanosecond(Option<i64>, Option<Arc<str>>),
    IntervalYearMonth(Option<i32>), IntervalDayTime(Option<i64>), IntervalMonthDayNano(Option<i128>),
    Struct(Option<Vec<ScalarValue>>, Fields),
    Dictionary(Box<DataType>, Box<ScalarValue>),
}
use ScalarValue::*;

macro_rules! same { ($a:expr, $b:expr, $($v:ident),*) => { match ($a, $b) { $( ($v(x), $v(y)) => Some(x.partial_cmp(y)), )* _ => None } } }
impl PartialOrd for ScalarValue {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        if let Some(r) = same!(self, other, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Utf8, LargeUtf8, Binary, LargeBinary,
            Date32, Date64, Time32Second, Time32Millisecond, Time64Microsecond, Time64Nanosecond, IntervalYearMonth, IntervalDayTime, IntervalMonthDayNano) { return r; }
        match (self, other) {
            (Float32(a), Float32(b)) => a.map(OrderedFloat).partial_cmp(&b.map(OrderedFloat)),
            (Float64(a), Float64(b)) => a.map(OrderedFloat).partial_cmp(&b.map(OrderedFloat)),
            (Decimal128(a, p, s), Decimal128(b, q, t)) => if p == q && s == t { a.partial_cmp(b) } else { None },
            (FixedSizeBinary(_, a), FixedSizeBinary(_, b)) => a.partial_cmp(b),
            (List(a, f), List(b, g)) => if f == g { a.partial_cmp(b) } else { None },
            (TimestampSecond(a, _), TimestampSecond(b, _)) => a.partial_cmp(b),
            (TimestampMillisecond(a, _), TimestampMillisecond(b, _)) => a.partial_cmp(b),
            (TimestampMicrosecond(a, _), TimestampMicrosecond(b, _)) => a.partial_cmp(b),
            (TimestampNanosecond(a, _), TimestampNanosecond(b, _)) => a.partial_cmp(b),
            (Struct(a, f), Struct(b, g)) => if f == g { a.partial_cmp(b) } else { None },
            (Dictionary(k, a), Dictionary(l, b)) => if k == l { a.partial_cmp(b) } else { None },
            (Null, Null) => Some(Ordering::Equal),
            _ => None,
        }
    }
}
impl PartialEq for ScalarValue {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Float32(a), Float32(b)) => a.map(OrderedFloat) == b.map(OrderedFloat),
            (Float64(a), Float64(b)) => a.map(OrderedFloat) == b.map(OrderedFloat),
            (Decimal128(a, p, s), Decimal128(b, q, t)) => a == b && p == q && s == t,
            (TimestampSecond(a, x), TimestampSecond(b, y)) => a == b,
            (TimestampMillisecond(a, x), TimestampMillisecond(b, y)) => a == b,
            (TimestampMicrosecond(a, x), TimestampMicrosecond(b, y)) => a == b,
            (TimestampNanosecond(a, x), TimestampNanosecond(b, y)) => a == b,
            _ => self.partial_cmp(other) == Some(Ordering::Equal),
        }
    }
}
impl Eq for ScalarValue {}
impl Hash for ScalarValue {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Null => 1u8.hash(h), Boolean(v) => v.hash(h), Float32(v) => v.map(OrderedFloat).hash(h), Float64(v) => v.map(OrderedFloat).hash(h),
            Decimal128(v, p, s) => { v.hash(h); p.hash(h); s.hash(h) }
            Int8(v) => v.hash(h), Int16(v) => v.hash(h), Int32(v) => v.hash(h), Int64(v) => v.hash(h),
            UInt8(v) => v.hash(h), UInt16(v) => v.hash(h), UInt32(v) => v.hash(h), UInt64(v) => v.hash(h),
            Utf8(v) | LargeUtf8(v) => v.hash(h), Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => v.hash(h),
            List(v, t) => { v.hash(h); t.hash(h) }
            Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.hash(h),
            Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => v.hash(h),
            TimestampSecond(v, _) | TimestampMillisecond(v, _) | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) => v.hash(h),
            IntervalMonthDayNano(v) => v.hash(h),
            Struct(v, t) => { v.hash(h); t.hash(h) }
            Dictionary(k, v) => { k.hash(h); v.hash(h) }
        }
    }
}
macro_rules! fmt_opt { ($f:expr, $v:expr) => { match $v { Some(e) => write!($f, "{}", e), None => write!($f, "NULL") } } }
impl fmt::Display for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Null => write!(f, "NULL"), Boolean(e) => fmt_opt!(f, e), Float32(e) => fmt_opt!(f, e), Float64(e) => fmt_opt!(f, e),
            Decimal128(v, p, s) => write!(f, "{v:?},{p:?},{s:?}"),
            Int8(e) => fmt_opt!(f, e), Int16(e) => fmt_opt!(f, e), Int32(e) => fmt_opt!(f, e), Int64(e) => fmt_opt!(f, e),
            UInt8(e) => fmt_opt!(f, e), UInt16(e) => fmt_opt!(f, e), UInt32(e) => fmt_opt!(f, e), UInt64(e) => fmt_opt!(f, e),
            Utf8(e) | LargeUtf8(e) => fmt_opt!(f, e),
            Binary(e) | LargeBinary(e) | FixedSizeBinary(_, e) => match e {
                Some(l) => write!(f, "{}", l.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(",")), None => write!(f, "NULL") },
            List(e, _) => match e { Some(l) => write!(f, "{}", l.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(",")), None => write!(f, "NULL") },
            Date32(e) | Time32Second(e) | Time32Millisecond(e) | IntervalYearMonth(e) => fmt_opt!(f, e),
            Date64(e) | Time64Microsecond(e) | Time64Nanosecond(e) | IntervalDayTime(e) => fmt_opt!(f, e),
            TimestampSecond(e, _) | TimestampMillisecond(e, _) | TimestampMicrosecond(e, _) | TimestampNanosecond(e, _) => fmt_opt!(f, e),
            IntervalMonthDayNano(e) => fmt_opt!(f, e),
            Struct(e, t) => match e { Some(l) => write!(f, "{{{}}}", l.iter().zip(t.iter()).map(|(v, t)| format!("{}:{}", t.name(), v)).collect::<Vec<_>>().join(",")), None => write!(f, "NULL") },
            Dictionary(_, v) => write!(f, "{v}"),
        }
    }
}
impl fmt::Debug for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Utf8(Some(s)) => write!(f, "Utf8(\"{s}\")"), LargeUtf8(Some(s)) => write!(f, "LargeUtf8(\"{s}\")"),
            Null => write!(f, "NULL"),
            TimestampSecond(_, t) => write!(f, "TimestampSecond({self}, {t:?})"),
            TimestampMillisecond(_, t) => write!(f, "TimestampMillisecond({self}, {t:?})"),
            TimestampMicrosecond(_, t) => write!(f, "TimestampMicrosecond({self}, {t:?})"),
            TimestampNanosecond(_, t) => write!(f, "TimestampNanosecond({self}, {t:?})"),
            o => write!(f, "{}({self})", match o { Boolean(_) => "Boolean", Float32(_) => "Float32", Float64(_) => "Float64", Int8(_) => "Int8", Int16(_) => "Int16",
                Int32(_) => "Int32", Int64(_) => "Int64", UInt8(_) => "UInt8", UInt16(_) => "UInt16", UInt32(_) => "UInt32", UInt64(_) => "UInt64",
                Utf8(_) => "Utf8", LargeUtf8(_) => "LargeUtf8", Binary(_) => "Binary", LargeBinary(_) => "LargeBinary", Decimal128(..) => "Decimal128", _ => "Scalar" }),
        }
    }
}
impl ScalarValue {
    pub fn get_datatype(&self) -> DataType {
        match self {
            Boolean(_) => DataType::Boolean, Float32(_) => DataType::Float32, Float64(_) => DataType::Float64, Decimal128(_, p, s) => DataType::Decimal128(*p, *s),
            Int8(_) => DataType::Int8, Int16(_) => DataType::Int16, Int32(_) => DataType::Int32, Int64(_) => DataType::Int64,
            UInt8(_) => DataType::UInt8, UInt16(_) => DataType::UInt16, UInt32(_) => DataType::UInt32, UInt64(_) => DataType::UInt64,
            Utf8(_) => DataType::Utf8, LargeUtf8(_) => DataType::LargeUtf8, Binary(_) => DataType::Binary, LargeBinary(_) => DataType::LargeBinary,
            FixedSizeBinary(n, _) => DataType::FixedSizeBinary(*n), List(_, f) => DataType::List(f.clone()),
            Date32(_) => DataType::Date32, Date64(_) => DataType::Date64,
            Time32Second(_) => DataType::Time32(TimeUnit::Second), Time32Millisecond(_) => DataType::Time32(TimeUnit::Millisecond),
            Time64Microsecond(_) => DataType::Time64(TimeUnit::Microsecond), Time64Nanosecond(_) => DataType::Time64(TimeUnit::Nanosecond),
            TimestampSecond(_, t) => DataType::Timestamp(TimeUnit::Second, t.clone()), TimestampMillisecond(_, t) => DataType::Timestamp(TimeUnit::Millisecond, t.clone()),
            TimestampMicrosecond(_, t) => DataType::Timestamp(TimeUnit::Microsecond, t.clone()), TimestampNanosecond(_, t) => DataType::Timestamp(TimeUnit::Nanosecond, t.clone()),
            IntervalYearMonth(_) => DataType::Interval(IntervalUnit::YearMonth), IntervalDayTime(_) => DataType::Interval(IntervalUnit::DayTime),
            IntervalMonthDayNano(_) => DataType::Interval(IntervalUnit::MonthDayNano), Struct(_, f) => DataType::Struct(f.clone()),
            Dictionary(k, v) => DataType::Dictionary(k.clone(), Box::new(v.get_datatype())), Null => DataType::Null,
        }
    }
    pub fn is_null(&self) -> bool {
        match self {
            Null => true, Boolean(v) => v.is_none(), Float32(v) => v.is_none(), Float64(v) => v.is_none(), Decimal128(v, ..) => v.is_none(),
            Int8(v) => v.is_none(), Int16(v) => v.is_none(), Int32(v) => v.is_none(), Int64(v) => v.is_none(),
            UInt8(v) => v.is_none(), UInt16(v) => v.is_none(), UInt32(v) => v.is_none(), UInt64(v) => v.is_none(),
            Utf8(v) | LargeUtf8(v) => v.is_none(), Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => v.is_none(), List(v, _) => v.is_none(),
            Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.is_none(),
            Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => v.is_none(),
            TimestampSecond(v, _) | TimestampMillisecond(v, _) | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) => v.is_none(),
            IntervalMonthDayNano(v) => v.is_none(), Struct(v, _) => v.is_none(), Dictionary(_, v) => v.is_null(),
        }
    }
    pub fn new_utf8(v: impl Into<String>) -> Self { Utf8(Some(v.into())) }
    pub fn to_array(&self) -> ArrayRef { self.to_array_of_size(1) }
    pub fn to_array_of_size(&self, n: usize) -> ArrayRef {
        macro_rules! prim { ($t:ty, $v:expr) => { Arc::new((0..n).map(|_| $v.clone()).collect::<PrimitiveArray<$t>>()) as ArrayRef } }
        macro_rules! ts { ($t:ty, $v:expr, $tz:expr) => { Arc::new((0..n).map(|_| $v.clone()).collect::<PrimitiveArray<$t>>().with_timezone_opt($tz.clone())) as ArrayRef } }
        match self {
            Boolean(v) => Arc::new((0..n).map(|_| *v).collect::<BooleanArray>()),
            Float32(v) => prim!(Float32Type, v), Float64(v) => prim!(Float64Type, v),
            Int8(v) => prim!(Int8Type, v), Int16(v) => prim!(Int16Type, v), Int32(v) => prim!(Int32Type, v), Int64(v) => prim!(Int64Type, v),
            UInt8(v) => prim!(UInt8Type, v), UInt16(v) => prim!(UInt16Type, v), UInt32(v) => prim!(UInt32Type, v), UInt64(v) => prim!(UInt64Type, v),
            Utf8(v) => Arc::new((0..n).map(|_| v.clone()).collect::<StringArray>()), LargeUtf8(v) => Arc::new((0..n).map(|_| v.clone()).collect::<LargeStringArray>()),
            Binary(v) => Arc::new((0..n).map(|_| v.clone()).collect::<BinaryArray>()), LargeBinary(v) => Arc::new((0..n).map(|_| v.clone()).collect::<LargeBinaryArray>()),
            Date32(v) => prim!(Date32Type, v), Date64(v) => prim!(Date64Type, v),
            Time32Second(v) => prim!(Time32SecondType, v), Time32Millisecond(v) => prim!(Time32MillisecondType, v),
            Time64Microsecond(v) => prim!(Time64MicrosecondType, v), Time64Nanosecond(v) => prim!(Time64NanosecondType, v),
            TimestampSecond(v, t) => ts!(TimestampSecondType, v, t), TimestampMillisecond(v, t) => ts!(TimestampMillisecondType, v, t),
            TimestampMicrosecond(v, t) => ts!(TimestampMicrosecondType, v, t), TimestampNanosecond(v, t) => ts!(TimestampNanosecondType, v, t),
            IntervalYearMonth(v) => prim!(IntervalYearMonthType, v), IntervalDayTime(v) => prim!(IntervalDayTimeType, v), IntervalMonthDayNano(v) => prim!(IntervalMonthDayNanoType, v),
            Null => new_null_array(&DataType::Null, n),
            o => unimplemented!("to_array {o:?}"),
        }
    }
    pub fn iter_to_array(scalars: impl IntoIterator<Item = ScalarValue>) -> Result<ArrayRef> {
        let v: Vec<ScalarValue> = scalars.into_iter().collect();
        if v.is_empty() { return Err(DataFusionError::Internal("Empty iterator passed to ScalarValue::iter_to_array".into())); }
        let t = v.iter().find(|s| !matches!(s, Null)).unwrap_or(&v[0]).get_datatype();
        let parts: Vec<ArrayRef> = v.iter().map(|s| if matches!(s, Null) { new_null_array(&t, 1) } else { s.to_array() }).collect();
        if parts.iter().any(|p| p.data_type() != &t) { return Err(DataFusionError::Internal("Inconsistent types in ScalarValue::iter_to_array".into())); }
        let refs: Vec<&dyn Array> = parts.iter().map(|p| p.as_ref()).collect();
        Ok(arrow::compute::concat(&refs)?)
    }
    pub fn try_from_array(a: &dyn Array, i: usize) -> Result<Self> {
        if a.is_null(i) { return ScalarValue::try_from(a.data_type()); }
        macro_rules! prim { ($t:ty, $v:ident) => { $v(Some(a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap().value(i))) } }
        macro_rules! ts { ($t:ty, $v:ident, $tz:expr) => { $v(Some(a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap().value(i)), $tz.clone()) } }
        Ok(match a.data_type() {
            DataType::Null => Null, DataType::Boolean => Boolean(Some(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i))),
            DataType::Float32 => prim!(Float32Type, Float32), DataType::Float64 => prim!(Float64Type, Float64),
            DataType::Int8 => prim!(Int8Type, Int8), DataType::Int16 => prim!(Int16Type, Int16), DataType::Int32 => prim!(Int32Type, Int32), DataType::Int64 => prim!(Int64Type, Int64),
            DataType::UInt8 => prim!(UInt8Type, UInt8), DataType::UInt16 => prim!(UInt16Type, UInt16), DataType::UInt32 => prim!(UInt32Type, UInt32), DataType::UInt64 => prim!(UInt64Type, UInt64),
            DataType::Utf8 => Utf8(Some(a.as_any().downcast_ref::<StringArray>().unwrap().value(i).to_string())),
            DataType::LargeUtf8 => LargeUtf8(Some(a.as_any().downcast_ref::<LargeStringArray>().unwrap().value(i).to_string())),
            DataType::Binary => Binary(Some(a.as_any().downcast_ref::<BinaryArray>().unwrap().value(i).to_vec())),
            DataType::Date32 => prim!(Date32Type, Date32), DataType::Date64 => prim!(Date64Type, Date64),
            DataType::Timestamp(TimeUnit::Second, t) => ts!(TimestampSecondType, TimestampSecond, t), DataType::Timestamp(TimeUnit::Millisecond, t) => ts!(TimestampMillisecondType, TimestampMillisecond, t),
            DataType::Timestamp(TimeUnit::Microsecond, t) => ts!(TimestampMicrosecondType, TimestampMicrosecond, t), DataType::Timestamp(TimeUnit::Nanosecond, t) => ts!(TimestampNanosecondType, TimestampNanosecond, t),
            o => return Err(DataFusionError::NotImplemented(format!("Can't create a scalar from array of type \"{o:?}\""))),
        })
    }
}
impl TryFrom<DataType> for ScalarValue { type Error = DataFusionError; fn try_from(t: DataType) -> Result<Self> { (&t).try_into() } }
impl TryFrom<&DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(t: &DataType) -> Result<Self> {
        Ok(match t {
            DataType::Boolean => Boolean(None), DataType::Float32 => Float32(None), DataType::Float64 => Float64(None), DataType::Decimal128(p, s) => Decimal128(None, *p, *s),
            DataType::Int8 => Int8(None), DataType::Int16 => Int16(None), DataType::Int32 => Int32(None), DataType::Int64 => Int64(None),
            DataType::UInt8 => UInt8(None), DataType::UInt16 => UInt16(None), DataType::UInt32 => UInt32(None), DataType::UInt64 => UInt64(None),
            DataType::Utf8 => Utf8(None), DataType::LargeUtf8 => LargeUtf8(None), DataType::Binary => Binary(None), DataType::LargeBinary => LargeBinary(None), DataType::FixedSizeBinary(n) => FixedSizeBinary(*n, None),
            DataType::Date32 => Date32(None), DataType::Date64 => Date64(None),
            DataType::Time32(TimeUnit::Second) => Time32Second(None), DataType::Time32(_) => Time32Millisecond(None), DataType::Time64(TimeUnit::Microsecond) => Time64Microsecond(None), DataType::Time64(_) => Time64Nanosecond(None),
            DataType::Timestamp(TimeUnit::Second, t) => TimestampSecond(None, t.clone()), DataType::Timestamp(TimeUnit::Millisecond, t) => TimestampMillisecond(None, t.clone()),
            DataType::Timestamp(TimeUnit::Microsecond, t) => TimestampMicrosecond(None, t.clone()), DataType::Timestamp(TimeUnit::Nanosecond, t) => TimestampNanosecond(None, t.clone()),
            DataType::List(f) => List(None, f.clone()), DataType::Struct(f) => Struct(None, f.clone()), DataType::Null => Null,
            o => return Err(DataFusionError::NotImplemented(format!("Can't create a scalar from data_type \"{o:?}\""))),
        })
    }
}
macro_rules! from_prim { ($($t:ty, $v:ident);*) => { $(
    impl From<$t> for ScalarValue { fn from(v: $t) -> Self { $v(Some(v)) } }
    impl From<Option<$t>> for ScalarValue { fn from(v: Option<$t>) -> Self { $v(v) } } )* } }
from_prim!(bool, Boolean; f32, Float32; f64, Float64; i8, Int8; i16, Int16; i32, Int32; i64, Int64; u8, UInt8; u16, UInt16; u32, UInt32; u64, UInt64);
impl From<&str> for ScalarValue { fn from(v: &str) -> Self { Utf8(Some(v.into())) } }
impl From<Option<&str>> for ScalarValue { fn from(v: Option<&str>) -> Self { Utf8(v.map(|s| s.into())) } }
impl From<String> for ScalarValue { fn from(v: String) -> Self { Utf8(Some(v)) } }
macro_rules! try_to { ($($t:ty : $($v:ident)|+ $(; $($w:ident)|+)?),*) => { $(
    impl TryFrom<ScalarValue> for $t { type Error = DataFusionError;
        fn try_from(v: ScalarValue) -> Result<Self> { match v { $( $v(Some(x)) => Ok(x), )+ $( $( $w(Some(x), _) => Ok(x), )+ )?
            o => Err(DataFusionError::Internal(format!("Cannot convert {o:?} to {}", stringify!($t)))) } } } )* } }
try_to!(i64 : Int64 | Date64 | Time64Microsecond | Time64Nanosecond | IntervalDayTime ; TimestampNanosecond | TimestampMicrosecond | TimestampMillisecond | TimestampSecond,
        i32 : Int32 | Date32 | Time32Second | Time32Millisecond, i16 : Int16, i8 : Int8, u64 : UInt64, u32 : UInt32, u16 : UInt16, u8 : UInt8, f64 : Float64, f32 : Float32, bool : Boolean, String : Utf8);
pub trait TryFromValue {}
