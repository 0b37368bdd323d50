use std::collections::HashSet;
use std::sync::Arc;
use crate::error::{DataFusionError, Result};

#[derive(Debug, Clone)] pub struct ScalarUDF { pub name: String }
#[derive(Debug, Clone)] pub struct AggregateUDF { pub name: String }
#[derive(Debug, Clone)] pub struct WindowUDF { pub name: String }
pub trait FunctionRegistry {
    fn udfs(&self) -> HashSet<String>;
    fn udf(&self, name: &str) -> Result<Arc<ScalarUDF>>;
    fn udaf(&self, name: &str) -> Result<Arc<AggregateUDF>>;
    fn udwf(&self, name: &str) -> Result<Arc<WindowUDF>>;
}
pub trait AsBytes { fn as_bytes(&self) -> &[u8]; }
macro_rules! as_bytes { ($($t:ty),*) => { $( impl AsBytes for $t { fn as_bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self as *const $t as *const u8, std::mem::size_of::<$t>()) } } }
    impl AsBytes for [$t] { fn as_bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.as_ptr() as *const u8, std::mem::size_of_val(self)) } } } )* } }
as_bytes!(u8, i32, u32, i64, u64, f32, f64);
impl AsBytes for Vec<u8> { fn as_bytes(&self) -> &[u8] { self } }
impl AsBytes for &str { fn as_bytes(&self) -> &[u8] { str::as_bytes(self) } }

pub mod table_ref {
    use std::borrow::Cow;
    use std::fmt;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum TableReference<'a> { Bare { table: Cow<'a, str> }, Partial { schema: Cow<'a, str>, table: Cow<'a, str> }, Full { catalog: Cow<'a, str>, schema: Cow<'a, str>, table: Cow<'a, str> } }
    pub type OwnedTableReference = TableReference<'static>;
    impl<'a> TableReference<'a> {
        pub fn bare(t: impl Into<Cow<'a, str>>) -> Self { Self::Bare { table: t.into() } }
        pub fn partial(s: impl Into<Cow<'a, str>>, t: impl Into<Cow<'a, str>>) -> Self { Self::Partial { schema: s.into(), table: t.into() } }
        pub fn full(c: impl Into<Cow<'a, str>>, s: impl Into<Cow<'a, str>>, t: impl Into<Cow<'a, str>>) -> Self { Self::Full { catalog: c.into(), schema: s.into(), table: t.into() } }
        pub fn to_owned_reference(&self) -> OwnedTableReference { match self { Self::Bare { table } => TableReference::bare(table.to_string()), Self::Partial { schema, table } => TableReference::partial(schema.to_string(), table.to_string()), Self::Full { catalog, schema, table } => TableReference::full(catalog.to_string(), schema.to_string(), table.to_string()) } }
        pub fn table(&self) -> &str { match self { Self::Bare { table } | Self::Partial { table, .. } | Self::Full { table, .. } => table } }
        pub fn schema(&self) -> Option<&str> { match self { Self::Bare { .. } => None, Self::Partial { schema, .. } | Self::Full { schema, .. } => Some(schema) } }
        pub fn catalog(&self) -> Option<&str> { match self { Self::Full { catalog, .. } => Some(catalog), _ => None } }
    }
    impl fmt::Display for TableReference<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self {
        Self::Bare { table } => write!(f, "{table}"), Self::Partial { schema, table } => write!(f, "{schema}.{table}"), Self::Full { catalog, schema, table } => write!(f, "{catalog}.{schema}.{table}") } } }
    fn parse(s: &str) -> OwnedTableReference {
        // identifiers separated by dots; a double-quoted identifier keeps dots and case
        let mut parts = vec![String::new()]; let mut q = false;
        let mut it = s.chars().peekable();
        while let Some(c) = it.next() { match c {
            '"' if q && it.peek() == Some(&'"') => { it.next(); parts.last_mut().unwrap().push('"') }
            '"' => q = !q, '.' if !q => parts.push(String::new()),
            c => parts.last_mut().unwrap().push(if q { c } else { c.to_ascii_lowercase() }) } }
        match parts.len() { 1 => TableReference::bare(parts.remove(0)), 2 => TableReference::partial(parts[0].clone(), parts[1].clone()), 3 => TableReference::full(parts[0].clone(), parts[1].clone(), parts[2].clone()), _ => TableReference::bare(s.to_string()) }
    }
    impl From<String> for OwnedTableReference { fn from(s: String) -> Self { parse(&s) } }
    impl<'a> From<&'a str> for TableReference<'a> { fn from(s: &'a str) -> Self { parse(s) } }
}
pub mod ast {
    use std::fmt;
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub enum Value { Number(String, bool), SingleQuotedString(String), DoubleQuotedString(String), Boolean(bool), Null }
    impl fmt::Display for Value { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self {
        Value::Number(n, l) => write!(f, "{n}{}", if *l { "L" } else { "" }), Value::SingleQuotedString(s) => write!(f, "'{}'", escape(s)), Value::DoubleQuotedString(s) => write!(f, "\"{s}\""), Value::Boolean(b) => write!(f, "{b}"), Value::Null => write!(f, "NULL") } } }
    /// sqlparser's escape_single_quote_string
    fn escape(s: &str) -> String { let mut o = String::new(); for c in s.chars() { if c == '\'' { o.push_str("''") } else { o.push(c) } } o }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub enum ExactNumberInfo { None, Precision(u64), PrecisionAndScale(u64, u64) }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub enum TimezoneInfo { None, WithTimeZone, WithoutTimeZone, Tz }
    impl fmt::Display for ExactNumberInfo { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::None => Ok(()), Self::Precision(p) => write!(f, "({p})"), Self::PrecisionAndScale(p, s) => write!(f, "({p},{s})") } } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub enum DataType { Boolean, TinyInt(Option<u64>), SmallInt(Option<u64>), Int(Option<u64>), BigInt(Option<u64>), UnsignedTinyInt(Option<u64>), UnsignedSmallInt(Option<u64>), UnsignedInt(Option<u64>), UnsignedBigInt(Option<u64>),
        Float(Option<u64>), Double, Timestamp(Option<u64>, TimezoneInfo), Date, Time(Option<u64>, TimezoneInfo), Interval, Varbinary(Option<u64>), Binary(Option<u64>), Blob(Option<u64>), String, Decimal(ExactNumberInfo), BigDecimal(ExactNumberInfo) }
    fn opt(f: &mut fmt::Formatter<'_>, n: &str, l: &Option<u64>, suffix: &str) -> fmt::Result { write!(f, "{n}")?; if let Some(l) = l { write!(f, "({l})")?; } write!(f, "{suffix}") }
    impl fmt::Display for DataType { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self {
        Self::Boolean => write!(f, "BOOLEAN"), Self::TinyInt(l) => opt(f, "TINYINT", l, ""), Self::SmallInt(l) => opt(f, "SMALLINT", l, ""), Self::Int(l) => opt(f, "INT", l, ""), Self::BigInt(l) => opt(f, "BIGINT", l, ""),
        Self::UnsignedTinyInt(l) => opt(f, "TINYINT", l, " UNSIGNED"), Self::UnsignedSmallInt(l) => opt(f, "SMALLINT", l, " UNSIGNED"), Self::UnsignedInt(l) => opt(f, "INT", l, " UNSIGNED"), Self::UnsignedBigInt(l) => opt(f, "BIGINT", l, " UNSIGNED"),
        Self::Float(l) => opt(f, "FLOAT", l, ""), Self::Double => write!(f, "DOUBLE"), Self::Timestamp(l, _) => opt(f, "TIMESTAMP", l, ""), Self::Date => write!(f, "DATE"), Self::Time(l, _) => opt(f, "TIME", l, ""), Self::Interval => write!(f, "INTERVAL"),
        Self::Varbinary(l) => opt(f, "VARBINARY", l, ""), Self::Binary(l) => opt(f, "BINARY", l, ""), Self::Blob(l) => opt(f, "BLOB", l, ""), Self::String => write!(f, "STRING"), Self::Decimal(i) => write!(f, "DECIMAL{i}"), Self::BigDecimal(i) => write!(f, "BIGDECIMAL{i}") } } }
}
pub mod file_format {
    pub trait FileFormat: Send + Sync + std::fmt::Debug {}
    pub mod file_type {
        use std::str::FromStr;
        use crate::error::{DataFusionError, Result};
        #[derive(Debug, Clone, PartialEq, Eq)] pub struct FileCompressionType(u8);
        impl FileCompressionType { pub const GZIP: Self = Self(1); pub const BZIP2: Self = Self(2); pub const XZ: Self = Self(3); pub const ZSTD: Self = Self(4); pub const UNCOMPRESSED: Self = Self(0); }
        impl FromStr for FileCompressionType { type Err = DataFusionError; fn from_str(s: &str) -> Result<Self> { Ok(match s.to_uppercase().as_str() {
            "GZIP" | "GZ" => Self::GZIP, "BZIP2" | "BZ2" => Self::BZIP2, "XZ" => Self::XZ, "ZST" | "ZSTD" => Self::ZSTD, "" => Self::UNCOMPRESSED, _ => return Err(DataFusionError::NotImplemented(format!("Unknown FileCompressionType: {s}"))) }) } }
        #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub enum FileType { ARROW, AVRO, PARQUET, CSV, JSON }
        impl FromStr for FileType { type Err = DataFusionError; fn from_str(s: &str) -> Result<Self> { Ok(match s.to_uppercase().as_str() {
            "ARROW" => Self::ARROW, "AVRO" => Self::AVRO, "PARQUET" => Self::PARQUET, "CSV" => Self::CSV, "JSON" | "NDJSON" => Self::JSON, _ => return Err(DataFusionError::NotImplemented(format!("Unknown FileType: {s}"))) }) } }
    }
    use file_type::FileCompressionType;
    pub mod avro { #[derive(Debug, Default)] pub struct AvroFormat; impl super::FileFormat for AvroFormat {} }
    pub mod parquet { #[derive(Debug, Default)] pub struct ParquetFormat; impl super::FileFormat for ParquetFormat {} }
    pub mod csv { #[derive(Debug, Default)] pub struct CsvFormat { pub h: bool, pub d: u8 } impl CsvFormat { pub fn with_has_header(mut self, h: bool) -> Self { self.h = h; self } pub fn with_delimiter(mut self, d: u8) -> Self { self.d = d; self } pub fn with_file_compression_type(self, _c: super::FileCompressionType) -> Self { self } } impl super::FileFormat for CsvFormat {} }
    pub mod json { #[derive(Debug, Default)] pub struct JsonFormat; impl JsonFormat { pub fn with_file_compression_type(self, _c: super::FileCompressionType) -> Self { self } } impl super::FileFormat for JsonFormat {} }
}
pub mod listing {
    use std::sync::Arc;
    pub struct ListingOptions { pub format: Arc<dyn super::file_format::FileFormat>, pub target_partitions: usize }
    impl ListingOptions { pub fn new(format: Arc<dyn super::file_format::FileFormat>) -> Self { Self { format, target_partitions: 1 } } pub fn with_target_partitions(mut self, n: usize) -> Self { self.target_partitions = n; self } }
}
pub mod cursor {
    use std::cmp::Ordering;
    use arrow::array::*;
    use arrow::buffer::ScalarBuffer;
    use arrow::datatypes::*;
    pub trait Cursor: Ord { fn is_finished(&self) -> bool; fn advance(&mut self) -> usize; }
    pub trait FieldArray: Array + 'static { type Values: FieldValues; fn values(&self) -> Self::Values; }
    pub trait FieldValues: std::fmt::Debug { type Value: ?Sized; fn len(&self) -> usize; fn compare(a: &Self::Value, b: &Self::Value) -> Ordering; fn value(&self, idx: usize) -> &Self::Value; }
    #[derive(Debug)] pub struct PrimitiveValues<T: ArrowNativeTypeOp>(ScalarBuffer<T>);
    impl<T: ArrowPrimitiveType> FieldArray for PrimitiveArray<T> { type Values = PrimitiveValues<T::Native>; fn values(&self) -> Self::Values { PrimitiveValues(self.values().clone()) } }
    impl<T: ArrowNativeTypeOp> FieldValues for PrimitiveValues<T> { type Value = T; fn len(&self) -> usize { self.0.len() } fn compare(a: &T, b: &T) -> Ordering { T::compare(*a, *b) } fn value(&self, i: usize) -> &T { &self.0[i] } }
    impl<T: ByteArrayType> FieldArray for GenericByteArray<T> { type Values = Self; fn values(&self) -> Self { self.clone() } }
    impl<T: ByteArrayType> FieldValues for GenericByteArray<T> { type Value = T::Native; fn len(&self) -> usize { Array::len(self) } fn compare(a: &T::Native, b: &T::Native) -> Ordering { let a: &[u8] = a.as_ref(); let b: &[u8] = b.as_ref(); a.cmp(b) } fn value(&self, i: usize) -> &T::Native { self.value(i) } }
}
pub mod pool {
    use std::sync::Arc;
    use crate::error::Result;
    pub trait MemoryPool: Send + Sync + std::fmt::Debug {
        fn register(&self, _c: &MemoryConsumer) {}
        fn unregister(&self, _c: &MemoryConsumer) {}
        fn grow(&self, r: &MemoryReservation, additional: usize);
        fn shrink(&self, r: &MemoryReservation, shrink: usize);
        fn try_grow(&self, r: &MemoryReservation, additional: usize) -> Result<()>;
        fn reserved(&self) -> usize;
    }
    #[derive(Debug)] pub struct MemoryConsumer { name: String, can_spill: bool }
    impl MemoryConsumer {
        pub fn new(name: impl Into<String>) -> Self { Self { name: name.into(), can_spill: false } }
        pub fn with_can_spill(self, can_spill: bool) -> Self { Self { can_spill, ..self } }
        pub fn can_spill(&self) -> bool { self.can_spill }
        pub fn name(&self) -> &str { &self.name }
        pub fn register(self, pool: &Arc<dyn MemoryPool>) -> MemoryReservation { pool.register(&self); MemoryReservation { consumer: self, size: 0, policy: pool.clone() } }
    }
    #[derive(Debug)] pub struct MemoryReservation { consumer: MemoryConsumer, size: usize, policy: Arc<dyn MemoryPool> }
    impl MemoryReservation {
        pub fn size(&self) -> usize { self.size }
        pub fn free(&mut self) -> usize { let s = self.size; if s != 0 { self.shrink(s) } s }
        pub fn shrink(&mut self, capacity: usize) { let n = self.size.checked_sub(capacity).unwrap(); self.policy.shrink(self, capacity); self.size = n }
        pub fn resize(&mut self, capacity: usize) { use std::cmp::Ordering::*; match capacity.cmp(&self.size) { Greater => self.grow(capacity - self.size), Less => self.shrink(self.size - capacity), _ => {} } }
        pub fn grow(&mut self, capacity: usize) { self.policy.grow(self, capacity); self.size += capacity; }
        pub fn try_grow(&mut self, capacity: usize) -> Result<()> { self.policy.try_grow(self, capacity)?; self.size += capacity; Ok(()) }
    }
    impl Drop for MemoryReservation { fn drop(&mut self) { self.free(); self.policy.unregister(&self.consumer); } }
}
