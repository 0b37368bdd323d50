//! Rows of a script to the flatbuffer the write path takes, and back from record batches.
use arrow::array::*;
use arrow::datatypes::{DataType, TimeUnit};
use protos::models::{self as fb, ColumnBuilder, ColumnType, FieldType, PointsBuilder, TableBuilder, ValuesBuilder};
use serde_json::Value;

pub const NULL: &str = "-";
pub struct Row { pub tags: Vec<(String, String)>, pub ts: i64, pub fields: Vec<(String, String)> }

fn bits(b: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (b.len() + 7) / 8];
    for (i, x) in b.iter().enumerate() { if *x { v[i / 8] |= 1 << (i % 8) } }
    v
}
/// token "i:5" | "f:1.5" | "s:x" | "b:true" | "u:7"
fn kind(t: &str) -> char { t.chars().next().unwrap() }

/// `groups`: (table, rows) in order. Values may be the NULL token.
pub fn points(db: &str, groups: &[(String, Vec<Row>)]) -> Vec<u8> {
    let mut f = flatbuffers::FlatBufferBuilder::new();
    let fdb = f.create_vector(db.as_bytes());
    let _ = fdb;
    let fdb = f.create_string(db);
    let mut tabs = vec![];
    for (tab, rows) in groups {
        let n = rows.len();
        let mut cols = vec![];
        let mut tag_names: Vec<String> = vec![];
        let mut field_names: Vec<(String, char)> = vec![];
        for r in rows {
            for (k, v) in &r.tags { if v != NULL && !tag_names.contains(k) { tag_names.push(k.clone()) } }
            for (k, v) in &r.fields { if v != NULL && !field_names.iter().any(|x| &x.0 == k) { field_names.push((k.clone(), kind(v))) } }
        }
        let ftab = f.create_string(tab);
        for k in &tag_names {
            let vals: Vec<String> = rows.iter().map(|r| r.tags.iter().find(|x| &x.0 == k).map(|x| x.1.clone()).unwrap_or(NULL.into())).collect();
            let nb = f.create_vector(&bits(&vals.iter().map(|v| v != NULL).collect::<Vec<_>>()));
            let ss: Vec<_> = vals.iter().map(|v| f.create_string(if v == NULL { "" } else { v })).collect();
            let vv = f.create_vector(&ss);
            let name = f.create_string(k);
            let mut vb = ValuesBuilder::new(&mut f); vb.add_string_value(vv); let vb = vb.finish();
            let mut cb = ColumnBuilder::new(&mut f);
            cb.add_name(name); cb.add_column_type(ColumnType::Tag); cb.add_field_type(FieldType::String); cb.add_col_values(vb); cb.add_nullbits(nb);
            cols.push(cb.finish());
        }
        for (k, c) in &field_names {
            let vals: Vec<String> = rows.iter().map(|r| r.fields.iter().find(|x| &x.0 == k).map(|x| x.1.clone()).unwrap_or(NULL.into())).collect();
            let nb = f.create_vector(&bits(&vals.iter().map(|v| v != NULL).collect::<Vec<_>>()));
            let body = |v: &String| if v == NULL { None } else { Some(v[2..].to_string()) };
            let name = f.create_string(k);
            let (vb, ft) = match c {
                'i' => { let x: Vec<i64> = vals.iter().map(|v| body(v).map(|b| b.parse().expect("HARNESS i")).unwrap_or(0)).collect(); let v = f.create_vector(&x); let mut b = ValuesBuilder::new(&mut f); b.add_int_value(v); (b.finish(), FieldType::Integer) }
                'u' => { let x: Vec<u64> = vals.iter().map(|v| body(v).map(|b| b.parse().expect("HARNESS u")).unwrap_or(0)).collect(); let v = f.create_vector(&x); let mut b = ValuesBuilder::new(&mut f); b.add_uint_value(v); (b.finish(), FieldType::Unsigned) }
                'f' => { let x: Vec<f64> = vals.iter().map(|v| body(v).map(|b| b.parse().expect("HARNESS f")).unwrap_or(0.0)).collect(); let v = f.create_vector(&x); let mut b = ValuesBuilder::new(&mut f); b.add_float_value(v); (b.finish(), FieldType::Float) }
                'b' => { let x: Vec<bool> = vals.iter().map(|v| body(v).map(|b| b == "true").unwrap_or(false)).collect(); let v = f.create_vector(&x); let mut b = ValuesBuilder::new(&mut f); b.add_bool_value(v); (b.finish(), FieldType::Boolean) }
                's' => { let ss: Vec<_> = vals.iter().map(|v| { let b = body(v).unwrap_or_default(); f.create_string(&b) }).collect(); let v = f.create_vector(&ss); let mut b = ValuesBuilder::new(&mut f); b.add_string_value(v); (b.finish(), FieldType::String) }
                c => panic!("HARNESS kind {c}"),
            };
            let mut cb = ColumnBuilder::new(&mut f);
            cb.add_name(name); cb.add_column_type(ColumnType::Field); cb.add_field_type(ft); cb.add_col_values(vb); cb.add_nullbits(nb);
            cols.push(cb.finish());
        }
        let nb = f.create_vector(&bits(&vec![true; n]));
        let tv = f.create_vector(&rows.iter().map(|r| r.ts).collect::<Vec<_>>());
        let name = f.create_string("time");
        let mut vb = ValuesBuilder::new(&mut f); vb.add_int_value(tv); let vb = vb.finish();
        let mut cb = ColumnBuilder::new(&mut f);
        cb.add_name(name); cb.add_column_type(ColumnType::Time); cb.add_field_type(FieldType::Integer); cb.add_col_values(vb); cb.add_nullbits(nb);
        cols.push(cb.finish());
        let cols = f.create_vector(&cols);
        let mut tb = TableBuilder::new(&mut f);
        tb.add_tab(ftab); tb.add_columns(cols); tb.add_num_rows(n as u64);
        tabs.push(tb.finish());
    }
    let tabs = f.create_vector(&tabs);
    let mut pb = PointsBuilder::new(&mut f);
    pb.add_db(fdb); pb.add_tables(tabs);
    let p = pb.finish();
    f.finish(p, None);
    let _ = std::marker::PhantomData::<fb::Points>;
    f.finished_data().to_vec()
}

/// Every cell as a token; timestamps as decimal text
pub fn cell(a: &ArrayRef, i: usize) -> String {
    if a.is_null(i) { return NULL.into() }
    macro_rules! get { ($t:ty) => { a.as_any().downcast_ref::<$t>().unwrap().value(i) } }
    match a.data_type() {
        DataType::Int64 => format!("i:{}", get!(Int64Array)),
        DataType::UInt64 => format!("u:{}", get!(UInt64Array)),
        DataType::Float64 => format!("f:{}", get!(Float64Array)),
        DataType::Boolean => format!("b:{}", get!(BooleanArray)),
        DataType::Utf8 => format!("s:{}", get!(StringArray)),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => format!("{}", get!(TimestampNanosecondArray)),
        DataType::Timestamp(TimeUnit::Microsecond, _) => format!("{}", get!(TimestampMicrosecondArray)),
        DataType::Timestamp(TimeUnit::Millisecond, _) => format!("{}", get!(TimestampMillisecondArray)),
        DataType::Timestamp(TimeUnit::Second, _) => format!("{}", get!(TimestampSecondArray)),
        t => format!("?:{t:?}"),
    }
}
pub fn strs(v: &Value) -> Vec<String> { v.as_array().expect("HARNESS arr").iter().map(|x| x.as_str().expect("HARNESS str").to_string()).collect() }
