//! common/protocol_parser against LinesTrace.tla.  Text is a list of code points, numbers are their digits.
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use h_util::*;
use models::column_data_ref::PrimaryColumnDataRef as P;
use models::schema::tskv_table_schema::{ColumnType, PhysicalCType, TableColumn, TskvTableSchema};
use models::ValueType;
use prost::Message;
use protocol_parser::json_protocol::parser as jp;
use protocol_parser::json_protocol::JsonType;
use protocol_parser::lines_convert::{arrow_array_to_points, line_to_batches, mutable_batches_to_point};
use protocol_parser::line_protocol::line_protocol_to_lines;
use protocol_parser::open_tsdb::{open_tsdb_to_lines, parser::Parser as Tsdb};
use protocol_parser::{DataPoint, Line};
use protos::models::{ColumnType as FbCt, FieldType, Points};
use protos::FieldValue;
use serde_json::{json, Value};
use std::sync::Arc;

fn text(v: &Value) -> String { v.as_array().expect("HARNESS text").iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("HARNESS code point")).collect() }
fn codes(t: &str) -> Value { json!(t.chars().map(|c| c as u32).collect::<Vec<_>>()) }
fn digits(t: String) -> Value { let (n, d) = match t.strip_prefix('-') { Some(d) => (true, d.to_string()), None => (false, t) }; json!([n, d.bytes().collect::<Vec<u8>>()]) }
/// sign, shortest digits, exponent of the first
fn fl(x: f64) -> Value {
    if !x.is_finite() { return json!(["f", false, [], 9999]); }
    let t = format!("{:e}", x.abs());
    let (m, e) = t.split_once('e').unwrap();
    json!(["f", x.is_sign_negative(), m.bytes().filter(|b| *b != b'.').collect::<Vec<_>>(), e.parse::<i64>().unwrap()])
}
fn iv(x: i64) -> Value { let d = digits(x.to_string()); json!(["i", d[0], d[1], 0]) }
fn uv(x: u64) -> Value { json!(["u", false, digits(x.to_string())[1], 0]) }
fn bv(x: bool) -> Value { json!(["b", x, [], 0]) }
fn sv(x: &[u8]) -> Value { json!(["s", false, codes(std::str::from_utf8(x).expect("utf-8")), 0]) }
fn fv(v: &FieldValue) -> Value { match v { FieldValue::F64(x) => fl(*x), FieldValue::I64(x) => iv(*x), FieldValue::U64(x) => uv(*x), FieldValue::Bool(x) => bv(*x), FieldValue::Str(x) => sv(x) } }
fn line(l: &Line) -> Value {
    let mut h = utils::BkdrHasher::new();
    h.hash_with(l.table.as_bytes());
    for (k, v) in &l.tags { h.hash_with(k.as_bytes()); h.hash_with(v.as_bytes()); }
    json!({"table": codes(&l.table), "tags": l.tags.iter().map(|(k, v)| json!([codes(k), codes(v)])).collect::<Vec<_>>(),
           "fields": l.fields.iter().map(|(k, v)| json!([codes(k), fv(v)])).collect::<Vec<_>>(), "ts": digits(l.timestamp.to_string()), "hash": h.number() == l.hash_id})
}
fn lines(ls: &[Line]) -> Value { json!(ls.iter().map(line).collect::<Vec<_>>()) }
fn batches(ls: &[Line]) -> Value {
    let m = match line_to_batches(ls) { Ok(m) => m, Err(_) => return json!({"res": "err"}) };
    let mut out = vec![];
    for (t, b) in &m {
        let mut cols = vec![];
        for (n, i) in &b.column_names {
            let c = &b.columns[*i];
            let valid: Vec<bool> = (0..c.column_data.valid.len()).map(|k| c.column_data.valid.get_bit(k)).collect();
            let (ty, vals): (&str, Vec<Value>) = match &c.column_data.primary_data {
                P::F64(v, ..) => ("f", v.iter().map(|x| fl(*x)).collect()), P::I64(v, ..) => ("i", v.iter().map(|x| iv(*x)).collect()),
                P::U64(v, ..) => ("u", v.iter().map(|x| uv(*x)).collect()), P::Bool(v, ..) => ("b", v.iter().map(|x| bv(*x)).collect()),
                P::String(v, ..) => ("s", v.iter().map(|x| sv(x)).collect()) };
            assert_eq!(valid.len(), vals.len(), "as many values as validity bits");
            let ct = match c.column_type { PhysicalCType::Tag => "tag", PhysicalCType::Field(_) => "field", PhysicalCType::Time(_) => "time" };
            cols.push(json!({"n": codes(n), "c": ct, "ty": ty, "v": vals.into_iter().zip(valid).map(|(x, ok)| if ok { json!([x]) } else { json!([]) }).collect::<Vec<_>>()}));
        }
        out.push(json!({"t": codes(t), "rows": b.row_count, "cols": cols}));
    }
    let buf = mutable_batches_to_point("a db", m);
    json!({"res": "ok", "mem": out, "wire": wire(&buf)})
}
fn wire(buf: &[u8]) -> Value {
    let p = flatbuffers::root::<Points>(buf).expect("points read back");
    json!({"db": p.db_ext().expect("db"), "tabs": p.tables_iter_ext().expect("tables").map(|t| {
        let rows = t.num_rows() as usize;
        json!({"t": codes(t.tab_ext().expect("tab")), "rows": rows, "cols": t.columns_iter_ext().expect("columns").map(|c| {
            let nb = c.nullbit_ext().expect("nullbits");
            let (ty, vals): (&str, Vec<Value>) = match c.field_type() {
                FieldType::Float => ("f", c.float_values().expect("f").iter().map(fl).collect()), FieldType::Integer => ("i", c.int_values().expect("i").iter().map(iv).collect()),
                FieldType::Unsigned => ("u", c.uint_values().expect("u").iter().map(uv).collect()), FieldType::Boolean => ("b", c.bool_values().expect("b").iter().map(bv).collect()),
                FieldType::String => ("s", c.string_values().expect("s").iter().map(|x| sv(x.as_bytes())).collect()), _ => ("?", vec![]) };
            assert_eq!(vals.len(), rows, "a value for each row");
            assert!(nb.bytes().len() * 8 >= rows, "a bit for each row");
            let ct = match c.column_type() { FbCt::Tag => "tag", FbCt::Field => "field", FbCt::Time => "time", _ => "?" };
            json!({"n": codes(c.name_ext().expect("name")), "c": ct, "ty": ty, "v": vals.into_iter().enumerate().map(|(k, x)| if nb.bytes()[k / 8] >> (k % 8) & 1 == 1 { json!([x]) } else { json!([]) }).collect::<Vec<_>>()})
        }).collect::<Vec<_>>()})
    }).collect::<Vec<_>>()})
}
fn arrow(op: &Value) -> Value {
    let mut cols = vec![TableColumn::new(0, "time".into(), ColumnType::Time(unit(&s(op, "unit"))), Default::default())];
    let (mut arrays, mut fields): (Vec<ArrayRef>, Vec<Field>) = (vec![], vec![]);
    let n = u(op, "rows") as usize;
    for (k, c) in op["cols"].as_array().unwrap().iter().enumerate() {
        let name = text(&c["n"]);
        let v: Vec<Option<&Value>> = c["v"].as_array().unwrap().iter().map(|x| x.get(0)).collect();
        let num = |x: &Value| -> i64 { x.as_i64().expect("HARNESS number") };
        let (a, ct): (ArrayRef, Option<ColumnType>) = match s(c, "k").as_str() {
            "t" => { let w: Vec<Option<i64>> = v.iter().map(|x| x.map(num)).collect(); (match unit(&s(op, "unit")) { TimeUnit::Millisecond => Arc::new(TimestampMillisecondArray::from(w)) as ArrayRef, TimeUnit::Microsecond => Arc::new(TimestampMicrosecondArray::from(w)), _ => Arc::new(TimestampNanosecondArray::from(w)) }, None) }
            "g" => (Arc::new(StringArray::from(v.iter().map(|x| x.map(text)).collect::<Vec<_>>())), Some(ColumnType::Tag)),
            "s" => (Arc::new(StringArray::from(v.iter().map(|x| x.map(text)).collect::<Vec<_>>())), Some(ColumnType::Field(ValueType::String))),
            "i" => (Arc::new(Int64Array::from(v.iter().map(|x| x.map(num)).collect::<Vec<_>>())), Some(ColumnType::Field(ValueType::Integer))),
            "u" => (Arc::new(UInt64Array::from(v.iter().map(|x| x.map(|y| num(y) as u64)).collect::<Vec<_>>())), Some(ColumnType::Field(ValueType::Unsigned))),
            "f" => (Arc::new(Float64Array::from(v.iter().map(|x| x.map(|y| num(y) as f64)).collect::<Vec<_>>())), Some(ColumnType::Field(ValueType::Float))),
            _ => (Arc::new(BooleanArray::from(v.iter().map(|x| x.map(|y| num(y) == 1)).collect::<Vec<_>>())), Some(ColumnType::Field(ValueType::Boolean))),
        };
        assert_eq!(a.len(), n, "HARNESS rows");
        let as_ty = c["as"].as_str().and_then(|t| match t { "i" => Some(ColumnType::Field(ValueType::Integer)), "s" => Some(ColumnType::Field(ValueType::String)), _ => None });
        if let Some(ct) = ct { if !c["out"].as_bool().unwrap_or(false) { cols.push(TableColumn::new(k as u32 + 1, name.clone(), as_ty.unwrap_or(ct), Default::default())); } }
        fields.push(Field::new(name, a.data_type().clone(), true));
        arrays.push(a);
    }
    let _ = DataType::Null;
    let sch = Arc::new(TskvTableSchema::new("ten".into(), "a db".into(), "tab".into(), cols));
    match arrow_array_to_points(arrays, Arc::new(Schema::new(fields)), sch, n) { Ok(b) => json!({"res": "ok", "wire": wire(&b)}), Err(_) => json!({"res": "err"}) }
}
fn unit(x: &str) -> TimeUnit { match x { "ms" => TimeUnit::Millisecond, "us" => TimeUnit::Microsecond, "ns" => TimeUnit::Nanosecond, _ => panic!("HARNESS unit") } }

/// a JSON tree: {"o": [[k, v]..]} {"a": [..]} {"s": text} {"n": digits} {"b": bool} {"z": 0}
fn tree(v: &Value) -> Value {
    if let Some(o) = v.get("o") { let mut m = serde_json::Map::new(); for p in o.as_array().unwrap() { m.insert(p[0].as_str().unwrap().into(), tree(&p[1])); } return Value::Object(m); }
    if let Some(a) = v.get("a") { return Value::Array(a.as_array().unwrap().iter().map(tree).collect()); }
    if let Some(t) = v.get("s") { return Value::String(text(t)); }
    if let Some(n) = v.get("n") { return serde_json::from_str(&text(n)).expect("HARNESS number"); }
    if let Some(x) = v.get("b") { return x.clone(); }
    Value::Null
}
fn leaf(v: &Value) -> Value {
    match v { Value::String(t) => json!(["s", codes(t)]), Value::Bool(x) => json!(["b", [*x as u8]]), Value::Number(n) => json!(["n", codes(&n.to_string())]), Value::Null => json!(["z", []]), _ => json!(["?", codes(&v.to_string())]) }
}
fn plain(v: &Value) -> Value { match v { Value::String(t) => json!(["s", t]), Value::Number(n) => json!(["n", n.to_string()]), _ => json!(["?", v.to_string()]) } }
fn plains(r: jp::Result<Vec<jp::JsonProtocol>>) -> Value { match r { Ok(v) => json!({"res": "ok", "logs": v.iter().map(|p| p.get_fields().iter().map(|(k, v)| json!([k, plain(v)])).collect::<Vec<_>>()).collect::<Vec<_>>()}), Err(_) => json!({"res": "err", "logs": []}) } }
fn flat(p: &jp::JsonProtocol) -> Value { json!(p.get_fields().iter().map(|(k, v)| json!([k, leaf(v)])).collect::<Vec<_>>()) }
fn flats(r: jp::Result<Vec<jp::JsonProtocol>>) -> Value { match r { Ok(v) => json!({"res": "ok", "logs": v.iter().map(flat).collect::<Vec<_>>()}), Err(_) => json!({"res": "err", "logs": []}) } }

mod otlp {
    use super::*;
    use protos::common::{any_value, AnyValue, InstrumentationScope, KeyValue};
    use protos::trace::{span, ResourceSpans, ScopeSpans, Span, Status};
    fn hex(t: &Value) -> Vec<u8> { let t = t.as_str().unwrap(); (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap()).collect() }
    fn attrs(v: &Value) -> Vec<KeyValue> {
        v.as_array().unwrap().iter().map(|a| KeyValue { key: a[0].as_str().unwrap().into(), value: Some(AnyValue { value: match a[1].as_str().unwrap() {
            "s" => Some(any_value::Value::StringValue(a[2].as_str().unwrap().into())), "b" => Some(any_value::Value::BoolValue(a[2].as_str() == Some("true"))),
            "i" => Some(any_value::Value::IntValue(a[2].as_str().unwrap().parse().unwrap())), _ => None } }) }).collect()
    }
    fn n(v: &Value, k: &str) -> u64 { v[k].as_u64().expect("HARNESS number") }
    pub fn request(op: &Value) -> Vec<u8> {
        let rs = op["rs"].as_array().unwrap().iter().map(|r| ResourceSpans {
            resource: r["res"].get(0).map(|x| protos::resource::Resource { attributes: attrs(&x["attrs"]), dropped_attributes_count: n(x, "drop") as u32 }),
            schema_url: s(r, "url"),
            scope_spans: r["scopes"].as_array().unwrap().iter().map(|c| ScopeSpans {
                scope: c["scope"].get(0).map(|x| InstrumentationScope { name: s(x, "name"), version: s(x, "ver"), attributes: attrs(&x["attrs"]), dropped_attributes_count: n(x, "drop") as u32 }),
                schema_url: s(c, "url"),
                spans: c["spans"].as_array().unwrap().iter().map(|p| Span {
                    trace_id: hex(&p["tid"]), span_id: hex(&p["sid"]), trace_state: s(p, "state"), parent_span_id: hex(&p["pid"]), flags: n(p, "flags") as u32, name: s(p, "name"), kind: p["kind"].as_i64().unwrap() as i32,
                    start_time_unix_nano: n(p, "start"), end_time_unix_nano: n(p, "end"), attributes: attrs(&p["attrs"]), dropped_attributes_count: n(p, "drop") as u32,
                    events: p["events"].as_array().unwrap().iter().map(|e| span::Event { time_unix_nano: n(e, "time"), name: s(e, "name"), attributes: attrs(&e["attrs"]), dropped_attributes_count: n(e, "drop") as u32 }).collect(), dropped_events_count: n(p, "dropev") as u32,
                    links: p["links"].as_array().unwrap().iter().map(|e| span::Link { trace_id: hex(&e["tid"]), span_id: hex(&e["sid"]), trace_state: s(e, "state"), attributes: attrs(&e["attrs"]), dropped_attributes_count: n(e, "drop") as u32, flags: n(e, "flags") as u32 }).collect(), dropped_links_count: n(p, "droplk") as u32,
                    status: p["status"].get(0).map(|x| Status { message: s(x, "msg"), code: x["code"].as_i64().unwrap() as i32 }),
                }).collect(),
            }).collect(),
        }).collect();
        protos::trace_service::ExportTraceServiceRequest { resource_spans: rs }.encode_to_vec()
    }
}
fn loki(op: &Value) -> Vec<u8> {
    use protos::logproto::{Entry, PushRequest, Stream, Timestamp};
    let r = PushRequest { streams: op["streams"].as_array().unwrap().iter().map(|x| Stream { labels: s(x, "labels"), hash: 0, entries: x["es"].as_array().unwrap().iter().map(|e| Entry { timestamp: e["ts"].get(0).map(|t| Timestamp { seconds: if b(op, "big") { i64::MAX / 7 } else { t[0].as_i64().unwrap() }, nanos: t[1].as_i64().unwrap() as i32 }), line: s(e, "line") }).collect() }).collect() };
    let mut out = vec![];
    models::snappy::SnappyCodec {}.compress(&r.encode_to_vec(), &mut out).expect("compress");
    out
}

pub fn main() {
    isolate_stdout();
    let mut buf: Vec<u8> = vec![];
    let stuck = |v: Value| v;
    drive(&["reset"], |op| match s(op, "op").as_str() {
        "reset" => { buf.clear(); json!({}) }
        "lp" | "fuzz" => {
            let t = text(&op["text"]);
            match line_protocol_to_lines(&t, op["now"].as_str().unwrap().parse().unwrap()) { Ok(ls) => { let mut v = batches(&ls); v["lines"] = lines(&ls); json!({"res": "ok", "got": v}) } Err(e) => { let _ = e.to_string(); json!({"res": "err"}) } }
        }
        "tsdb" | "tsfuzz" => { let t = text(&op["text"]); match open_tsdb_to_lines(&t, 7) { Ok(ls) => json!({"res": "ok", "lines": lines(&ls)}), Err(_) => json!({"res": "err"}) } }
        "tsjson" => { let t = s(op, "json"); let p: DataPoint = match serde_json::from_str(&t) { Ok(p) => p, Err(_) => return json!({"res": "err"}) }; json!({"res": "ok", "line": line(&Line::from(p))}) }
        // what the TCP service does with each piece that arrives
        "feed" => {
            buf.extend_from_slice(text(&op["text"]).as_bytes());
            let mut got = json!([]);
            let mut res = "ok";
            let mut used = 0;
            match Tsdb::new(7).parse_tcp_opentsdb(&buf) { Ok((ls, pos)) => { if !ls.is_empty() { got = lines(&ls); used = pos; } } Err(_) => res = "err" }
            assert!(used <= buf.len(), "no more is used than there is");
            buf.drain(..used);
            stuck(json!({"res": res, "lines": got}))
        }
        "arrow" => arrow(op),
        "ndjson" => { let t: Vec<String> = op["docs"].as_array().unwrap().iter().map(|d| tree(d).to_string()).collect(); let v = t.iter().map(|x| x.as_str()).collect(); flats(if s(op, "as") == "loki" { jp::parse_json_to_lokilog(v) } else { jp::parse_json_to_ndjsonlog(v) }) }
        "bulk" => { let t: Vec<String> = op["docs"].as_array().unwrap().iter().map(|d| if d.is_string() { d.as_str().unwrap().to_string() } else { tree(d).to_string() }).collect(); flats(jp::parse_json_to_eslog(t.iter().map(|x| x.as_str()).collect())) }
        "loki" => plains(jp::parse_protobuf_to_lokilog(loki(op).into())),
        "otlp" => plains(jp::parse_protobuf_to_otlptrace(otlp::request(op).into())),
        "kind" => json!({"k": match JsonType::try_parse(s(op, "s")) { Ok(k) => format!("{k:?}"), Err(_) => "-".into() }}),
        "toline" => {
            let p = jp::parse_json_to_ndjsonlog(vec![&tree(&op["doc"]).to_string()]).expect("HARNESS ndjson").remove(0);
            let (tab, tc, tg) = (s(op, "table"), s(op, "time"), s(op, "tags"));
            let t0 = models::utils::now_timestamp_nanos();
            let r = jp::parse_to_line(&p, &tab, &tc, &tg);
            let t1 = models::utils::now_timestamp_nanos();
            match r { Ok(l) => { let mut v = line(&l); v["tags"] = json!(l.tags.iter().map(|(k, x)| json!([k, codes(x)])).collect::<Vec<_>>()); v["fields"] = json!(l.fields.iter().map(|(k, x)| json!([k, fv(x)])).collect::<Vec<_>>()); v["isnow"] = json!(t0 <= l.timestamp && l.timestamp <= t1); json!({"res": "ok", "line": v}) } Err(_) => json!({"res": "err"}) }
        }
        o => panic!("HARNESS op {o}"),
    });
}
