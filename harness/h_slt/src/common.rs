use arrow::array::*;
use arrow::datatypes::*;
use serde_json::{json, Value};
use std::sync::Arc;
pub fn unb64(t: &str) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let (mut acc, mut n, mut o) = (0u32, 0, vec![]);
    for c in t.bytes() { if c == b'=' { break } acc = acc << 6 | a.iter().position(|x| *x == c).unwrap() as u32; n += 6; if n >= 8 { n -= 8; o.push((acc >> n) as u8) } }
    String::from_utf8(o).unwrap()
}
pub fn ch(t: &str) -> Value { json!(t.chars().map(|c| c.to_string()).collect::<Vec<_>>()) }
pub fn st(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect() }
pub fn column(t: &str, vals: &[String]) -> (DataType, ArrayRef) {
    let n = |s: &String| if s == "NULL" { None } else { Some(s.clone()) };
    macro_rules! p { ($a:ident) => { Arc::new($a::from(vals.iter().map(|x| n(x).map(|x| x.parse().unwrap())).collect::<Vec<_>>())) as ArrayRef } }
    let a: ArrayRef = match t {
        "bool" => Arc::new(BooleanArray::from(vals.iter().map(|x| n(x).map(|x| x == "true")).collect::<Vec<_>>())),
        "i8" => p!(Int8Array), "i16" => p!(Int16Array), "i32" => p!(Int32Array), "i64" => p!(Int64Array), "u8" => p!(UInt8Array), "u16" => p!(UInt16Array), "u32" => p!(UInt32Array), "u64" => p!(UInt64Array),
        "f32" => p!(Float32Array), "f64" => p!(Float64Array), "ts_s" => Arc::new(new_null_array(&DataType::Timestamp(TimeUnit::Second, None), vals.len())),
        "ts_ms" => new_null_array(&DataType::Timestamp(TimeUnit::Millisecond, None), vals.len()), "ts_us" => new_null_array(&DataType::Timestamp(TimeUnit::Microsecond, None), vals.len()),
        "ts_ns" => new_null_array(&DataType::Timestamp(TimeUnit::Nanosecond, None), vals.len()), "ts_tz" => new_null_array(&DataType::Timestamp(TimeUnit::Nanosecond, Some("+08:00".into())), vals.len()),
        "f16" => new_null_array(&DataType::Float16, vals.len()), "d128" => new_null_array(&DataType::Decimal128(10, 2), vals.len()), "d256" => new_null_array(&DataType::Decimal256(10, 2), vals.len()),
        "date" => new_null_array(&DataType::Date32, vals.len()), "null" => new_null_array(&DataType::Binary, vals.len()),
        "utf8" => Arc::new(StringArray::from(vals.iter().map(n).collect::<Vec<_>>())), "large" => Arc::new(LargeStringArray::from(vals.iter().map(n).collect::<Vec<_>>())),
        o => panic!("HARNESS type {o}") };
    (a.data_type().clone(), a)
}
