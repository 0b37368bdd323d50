//! Column blocks: a column of cells is written as a page the way a flush, a merge or a compaction
//! writes it, and read back the way a scan reads it.
use arrow::array::*;
use arrow::datatypes::TimeUnit;
use h_util::{b, s, u};
use models::codec::Encoding;
use models::field_value::FieldVal;
use models::schema::tskv_table_schema::{ColumnType, TableColumn};
use models::ValueType;
use serde_json::{json, Value};
use std::sync::Arc;
use tskv::tsm::codec::{get_encoding, get_str_codec};
use tskv::tsm::mutable_column::MutableColumn;
use tskv::tsm::mutable_column_ref::MutableColumnRef;
use tskv::tsm::page::Page;

fn unlimb(v: &Value) -> u64 {
    v.as_array().expect("HARNESS limbs").iter().enumerate().fold(0, |a, (k, d)| a | d.as_u64().expect("HARNESS limb") << (16 * k))
}
fn limbs(x: u64) -> Value { h_util::limbs16(x) }
/// A long text is given as [seed, length] and shown in full.
fn text(v: &Value) -> String {
    match v { Value::String(x) => x.clone(), v => {
        let (mut x, n) = (v[0].as_u64().expect("HARNESS seed") | 1, v[1].as_u64().expect("HARNESS len") as usize);
        let mut out = String::new();
        while out.len() < n { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); out.push((b'a' + (x >> 59) as u8 % 26) as char); }
        out
    } }
}
/// Texts beyond a screenful are reported by length and checksum.
fn show(t: &str) -> Value {
    if t.len() <= 64 { return json!(t) }
    json!(format!("#{}:{:08x}:{}", t.len(), crc32(t.as_bytes()), &t[..8]))
}
fn crc32(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 } } } !c }

fn field(ty: &str, v: &Value) -> FieldVal {
    match ty {
        "i64" | "ts" => FieldVal::Integer(unlimb(v) as i64),
        "u64" => FieldVal::Unsigned(unlimb(v)),
        "f64" => FieldVal::Float(f64::from_bits(unlimb(v))),
        "bool" => FieldVal::Boolean(v.as_bool().expect("HARNESS bool")),
        _ => FieldVal::Bytes(text(v).into_bytes().as_slice().into()),
    }
}
fn array(ty: &str, unit: &TimeUnit, cells: &[Option<FieldVal>]) -> ArrayRef {
    macro_rules! go { ($a:ty, $v:ident, $e:expr) => { Arc::new(cells.iter().map(|c| c.as_ref().map(|c| match c { FieldVal::$v(x) => $e(x), _ => panic!("HARNESS cell") })).collect::<$a>()) as ArrayRef } }
    match (ty, unit) {
        ("i64", _) => go!(Int64Array, Integer, |x: &i64| *x),
        ("u64", _) => go!(UInt64Array, Unsigned, |x: &u64| *x),
        ("f64", _) => go!(Float64Array, Float, |x: &f64| *x),
        ("bool", _) => go!(BooleanArray, Boolean, |x: &bool| *x),
        ("ts", TimeUnit::Second) => go!(TimestampSecondArray, Integer, |x: &i64| *x),
        ("ts", TimeUnit::Millisecond) => go!(TimestampMillisecondArray, Integer, |x: &i64| *x),
        ("ts", TimeUnit::Microsecond) => go!(TimestampMicrosecondArray, Integer, |x: &i64| *x),
        ("ts", TimeUnit::Nanosecond) => go!(TimestampNanosecondArray, Integer, |x: &i64| *x),
        _ => Arc::new(cells.iter().map(|c| c.as_ref().map(|c| match c { FieldVal::Bytes(x) => String::from_utf8(x.to_vec()).unwrap(), _ => panic!("HARNESS cell") })).collect::<StringArray>()),
    }
}
fn cells(ty: &str, a: &ArrayRef) -> Value {
    macro_rules! go { ($t:ty, $e:expr) => { match a.as_any().downcast_ref::<$t>() { Some(a) => json!(a.iter().map(|c| match c { Some(x) => json!([$e(x)]), None => json!([]) }).collect::<Vec<_>>()), None => json!([["wrong type"]]) } } }
    match ty {
        "i64" => go!(Int64Array, |x: i64| limbs(x as u64)),
        "u64" => go!(UInt64Array, limbs),
        "f64" => go!(Float64Array, |x: f64| limbs(x.to_bits())),
        "bool" => go!(BooleanArray, |x: bool| x),
        "ts" => {
            macro_rules! ts { ($($t:ty),*) => {$( if a.as_any().is::<$t>() { return go!($t, |x: i64| limbs(x as u64)) } )*} }
            ts!(TimestampSecondArray, TimestampMillisecondArray, TimestampMicrosecondArray, TimestampNanosecondArray);
            json!([["wrong type"]])
        }
        _ => go!(StringArray, show),
    }
}
fn encoding(n: &str) -> Encoding {
    match n { "null" => Encoding::Null, "delta" => Encoding::Delta, "deltats" => Encoding::DeltaTs, "quantile" => Encoding::Quantile, "gzip" => Encoding::Gzip, "bzip" => Encoding::Bzip,
              "gorilla" => Encoding::Gorilla, "snappy" => Encoding::Snappy, "zstd" => Encoding::Zstd, "zlib" => Encoding::Zlib, "bitpack" => Encoding::BitPack, "default" => Encoding::Default, n => panic!("HARNESS encoding {n}") }
}

fn page(op: &Value) -> Value {
    let ty = s(op, "ty");
    let unit = match op["unit"].as_str().unwrap_or("ns") { "s" => TimeUnit::Second, "ms" => TimeUnit::Millisecond, "us" => TimeUnit::Microsecond, _ => TimeUnit::Nanosecond };
    let ct = match ty.as_str() { "i64" => ColumnType::Field(ValueType::Integer), "u64" => ColumnType::Field(ValueType::Unsigned), "f64" => ColumnType::Field(ValueType::Float),
        "bool" => ColumnType::Field(ValueType::Boolean), "ts" => ColumnType::Time(unit.clone()), "tag" => ColumnType::Tag, _ => ColumnType::Field(ValueType::String) };
    let col = TableColumn::new(3, "c".into(), ct, encoding(&s(op, "enc")));
    // cells are of sort "str" for tags
    let sort = if ty == "tag" { "str" } else { &ty };
    let given: Vec<Option<FieldVal>> = op["cells"].as_array().unwrap().iter().map(|c| c.get(0).map(|v| field(sort, v))).collect();
    let (lo, hi) = (u(op, "lo") as usize, u(op, "hi") as usize);
    let page = match s(op, "via").as_str() {
        // a compaction writes (a part of) a record batch
        "array" => Page::arrow_array_to_page(array(sort, &unit, &given).slice(lo, hi - lo), col),
        // merged columns
        "column" => {
            let mut m = MutableColumn::empty_with_cap(col, given.len()).unwrap();
            for c in &given { m.push(c.clone()).unwrap(); }
            let m = if b(op, "chunk") { m.chunk(lo, hi).unwrap() } else { m };
            Page::col_to_page(&m)
        }
        // a flush writes columns of borrowed values
        "ref" => {
            let mut m = MutableColumnRef::empty(col).unwrap();
            for c in &given {
                if ty == "ts" { let Some(FieldVal::Integer(t)) = c else { panic!("HARNESS time") }; m.push_ts(*t).unwrap(); } else { m.push(c.as_ref()).unwrap(); }
            }
            Page::colref_to_page(m)
        }
        v => panic!("HARNESS via {v}"),
    };
    let page = match page { Ok(p) => p, Err(_) => return json!({"res": "refused"}) };
    let meta = serde_json::to_value(page.meta()).unwrap();
    let used = get_encoding(page.data_buffer());
    // the page as it is found in a file
    let page = Page::new(bytes::Bytes::copy_from_slice(page.bytes()), page.meta().clone());
    let mut broken = page.bytes().to_vec();
    let n = broken.len();
    let flip = if n > 16 + page.null_bitset_slice().len() { broken[n - 1] ^= 1; Page::new(broken.into(), page.meta().clone()).crc_validation().is_err() } else { true };
    let back = match page.crc_validation().and_then(|p| p.to_arrow_array()) { Ok(a) => a, Err(e) => return json!({"res": "unreadable", "why": e.to_string()}) };
    let st = meta["statistics"].as_object().unwrap().values().next().unwrap().clone();
    let bound = |v: &Value| -> Value {
        if v.is_null() { return json!([]) }
        match sort { "i64" | "ts" => json!([limbs(v.as_i64().unwrap() as u64)]), "u64" => json!([limbs(v.as_u64().unwrap())]), _ => json!([]) }
    };
    json!({"res": "ok", "back": cells(sort, &back), "flip": flip, "num": meta["num_values"], "least": bound(&st["min"]), "most": bound(&st["max"]), "used": format!("{used:?}").to_lowercase()})
}
/// The cells as the specification sees them: long texts by their checksum.
fn show_cells(op: &mut Value) {
    let c: Vec<Value> = op["cells"].as_array().unwrap().iter().map(|c| match c.get(0) { None => json!([]), Some(v) => json!([show(&text(v))]) }).collect();
    op["cells"] = json!(c);
}
fn strs(op: &Value) -> Value {
    let given: Vec<String> = op["cells"].as_array().unwrap().iter().map(|c| text(&c[0])).collect();
    let refs: Vec<&[u8]> = given.iter().map(|t| t.as_bytes()).collect();
    let codec = get_str_codec(encoding(&s(op, "enc")));
    let mut buf = vec![];
    if codec.encode(&refs, &mut buf).is_err() { return json!({"res": "refused"}) }
    let mut out = vec![];
    match codec.decode(&buf, &mut out) {
        Ok(()) => json!({"res": "ok", "back": out.iter().map(|t| json!([show(&String::from_utf8_lossy(t))])).collect::<Vec<_>>()}),
        Err(e) => json!({"res": "unreadable", "why": e.to_string()}),
    }
}
pub fn run() {
    h_util::drive(&["page", "strs"], |op| {
        let mut v = match s(op, "op").as_str() { "page" => page(op), "strs" => strs(op), o => panic!("HARNESS op {o}") };
        if matches!(op["ty"].as_str(), Some("str" | "tag")) || s(op, "op") == "strs" { let mut o = op.clone(); show_cells(&mut o); v["cells"] = o["cells"].clone(); }
        v
    });
}
