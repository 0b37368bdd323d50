//! Protobuf messages, flatbuffer points and the gRPC clients.
mod enums;
mod grpc;
mod rpc;
mod types;
use h_util::*;
use protos::models::*;
use protos::models_helper as mh;
use serde_json::{json, Value};
use std::collections::HashMap;

/// Debug text of a prost message -> tagged tree
struct P<'a> { s: &'a [u8], i: usize }
impl P<'_> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1; } }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.i < self.s.len() && self.s[self.i] == c { self.i += 1; true } else { false } }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_#.-+".contains(&self.s[self.i])) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).trim_start_matches("r#").to_string()
    }
    fn val(&mut self) -> Value {
        self.ws();
        if self.eat(b'[') {
            let mut v = vec![];
            while !self.eat(b']') { v.push(self.val()); self.eat(b','); }
            return json!(["l", v]);
        }
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let mut out = vec![];
            while self.s[self.i] != b'"' { if self.s[self.i] == b'\\' { self.i += 1; } out.push(self.s[self.i]); self.i += 1; }
            self.i += 1;
            return json!(["s", out]);
        }
        let w = self.word();
        if w.is_empty() { panic!("HARNESS: debug text at {} of {}", self.i, String::from_utf8_lossy(self.s)); }
        if w == "true" || w == "false" { return json!(["b", w == "true"]); }
        if w == "None" { return json!(["none"]); }
        if w == "inf" || w == "NaN" || w == "-inf" { return json!(["d", w]); }
        let c = w.as_bytes()[0];
        if c.is_ascii_digit() || c == b'-' {
            if w.contains('.') || w.contains('e') { return json!(["d", w]); }
            let x = w.parse::<i128>().unwrap() as u64;
            return json!(["n", x.to_le_bytes()]);
        }
        if self.eat(b'{') {
            let mut m = vec![];
            while !self.eat(b'}') { let k = self.word(); assert!(self.eat(b':')); let v = self.val(); self.eat(b','); m.push((k, v)); }
            return json!(["S", w, m]);
        }
        if self.eat(b'(') {
            let v = self.val();
            self.eat(b',');
            assert!(self.eat(b')'));
            return if w == "Some" { json!(["some", v]) } else { json!(["v", w, v]) };
        }
        // a message without fields prints as its bare name
        if w.ends_with("Request") || w.ends_with("Response") { return json!(["S", w, []]); }
        json!(["e", w])
    }
}
pub fn f<T: prost::Message + Default + Clone>(b: &[u8], via: &str) -> Value {
    let r = match via { "bincode" => mh::bincode::<T>(b), "helper" => mh::parse_prost_bytes::<T>(b), _ => T::decode(b) };
    match r {
        Ok(m) => json!({"res": "ok", "tree": P { s: format!("{m:?}").as_bytes(), i: 0 }.val(), "enc": mh::to_prost_bytes(&m), "len": m.encoded_len()}),
        Err(_) => json!({"res": "err"}),
    }
}
fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap_or_else(|| panic!("HARNESS bytes {v}")).iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn st(v: &Value) -> String { v.as_str().unwrap().to_string() }
fn b8(v: &Value) -> [u8; 8] { bytes(v).try_into().unwrap() }
fn ename<E: std::fmt::Debug>(e: &E) -> String { format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
fn res<T>(r: Result<T, protos::PointsError>, g: impl FnOnce(T) -> Value) -> Value { match r { Ok(x) => json!(["ok", g(x)]), Err(e) => json!(["err", ename(&e)]) } }
/// everything the accessors say about one column
fn col(c: &Column) -> Value {
    json!({"name": res(c.name_ext(), |x| json!(x)), "ct": c.column_type().0, "ft": c.field_type().0,
        "nb": res(c.nullbit_ext(), |x| json!(x.bytes())),
        "i": res(c.int_values(), |v| json!(v.iter().map(|x| x.to_be_bytes()).collect::<Vec<_>>())), "il": res(c.int_values_len(), |x| json!(x)),
        "u": res(c.uint_values(), |v| json!(v.iter().map(|x| x.to_be_bytes()).collect::<Vec<_>>())), "ul": res(c.uint_values_len(), |x| json!(x)),
        "f": res(c.float_values(), |v| json!(v.iter().map(|x| x.to_be_bytes()).collect::<Vec<_>>())), "fl": res(c.float_values_len(), |x| json!(x)),
        "b": res(c.bool_values(), |v| json!(v.iter().map(|x| x as u8).collect::<Vec<_>>())), "bl": res(c.bool_values_len(), |x| json!(x)),
        "s": res(c.string_values(), |v| json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>())), "sl": res(c.string_values_len(), |x| json!(x))})
}
fn view(p: &Points) -> Value {
    json!({"db": res(p.db_ext(), |x| json!(x)), "tables": res(p.tables_iter_ext(), |ts| json!(ts.map(|t| json!({"tab": res(t.tab_ext(), |x| json!(x)), "rows": t.num_rows(),
        "cols": res(t.columns_iter_ext(), |cs| json!(cs.map(|c| col(&c)).collect::<Vec<_>>()))})).collect::<Vec<_>>()))})
}
fn shown(p: &Points) -> Value {
    json!(format!("{p}").lines().filter(|l| ["Database: ", "Table: ", "Column: ", "No tables"].iter().any(|k| l.starts_with(k)) || l.contains("{!BAD_TABLE_POINTS}")).map(String::from).collect::<Vec<_>>())
}
fn ftype(n: &str) -> FieldType { match n { "f" => FieldType::Float, "i" => FieldType::Integer, "u" => FieldType::Unsigned, "b" => FieldType::Boolean, "s" => FieldType::String, _ => panic!("HARNESS ft") } }
fn answer(buf: &[u8]) -> Value {
    match flatbuffers::root::<Points>(buf) { Ok(p) => json!({"buf": buf, "view": view(&p), "shown": shown(&p)}), Err(e) => json!({"buf": buf, "view": [format!("{e}")], "shown": []}) }
}
fn build(op: &Value) -> Value {
    let tags: Vec<(String, Vec<String>)> = op["tags"].as_array().unwrap().iter().map(|t| (st(&t[0]), t[1].as_array().unwrap().iter().map(st).collect())).collect();
    let fields: Vec<(String, String, Vec<Vec<u8>>)> = op["fields"].as_array().unwrap().iter().map(|t| (st(&t[0]), st(&t[1]), t[2].as_array().unwrap().iter().map(bytes).collect())).collect();
    let times: Vec<i64> = op["time"].as_array().unwrap().iter().map(|t| i64::from_be_bytes(b8(t))).collect();
    let mut fbb = flatbuffers::FlatBufferBuilder::new();
    let p = mh::create_points(&mut fbb, &s(op, "db"), &s(op, "tab"), tags.iter().map(|(k, v)| (k.as_str(), v.iter().map(|x| x.as_str()).collect())).collect::<HashMap<_, Vec<&str>>>(),
        fields.iter().map(|(k, _, v)| (k.as_str(), v.iter().map(|x| x.as_slice()).collect())).collect::<HashMap<_, Vec<&[u8]>>>(),
        fields.iter().map(|(k, t, _)| (k.as_str(), ftype(t))).collect(), &times, times.len());
    fbb.finish(p, None);
    answer(fbb.finished_data())
}
/// points with any part left out
fn raw(op: &Value) -> Value {
    let mut fbb = flatbuffers::FlatBufferBuilder::new();
    let f = &mut fbb;
    let first = |v: &Value| v.as_array().unwrap().first().cloned();
    let db = first(&op["db"]).map(|x| f.create_string(x.as_str().unwrap()));
    let tables = first(&op["tables"]).map(|ts| {
        let v: Vec<_> = ts.as_array().unwrap().iter().map(|t| {
            let tab = first(&t["tab"]).map(|x| f.create_string(x.as_str().unwrap()));
            let cols = first(&t["cols"]).map(|cs| {
                let v: Vec<_> = cs.as_array().unwrap().iter().map(|c| {
                    let name = first(&c["name"]).map(|x| f.create_string(x.as_str().unwrap()));
                    let nb = first(&c["nb"]).map(|x| f.create_vector(&bytes(&x)));
                    let vals = first(&c["vals"]).map(|x| {
                        let i = first(&x["i"]).map(|a| { let v: Vec<i64> = a.as_array().unwrap().iter().map(|e| i64::from_be_bytes(b8(e))).collect(); f.create_vector(&v) });
                        let u = first(&x["u"]).map(|a| { let v: Vec<u64> = a.as_array().unwrap().iter().map(|e| u64::from_be_bytes(b8(e))).collect(); f.create_vector(&v) });
                        let d = first(&x["f"]).map(|a| { let v: Vec<f64> = a.as_array().unwrap().iter().map(|e| f64::from_be_bytes(b8(e))).collect(); f.create_vector(&v) });
                        let b = first(&x["b"]).map(|a| { let v: Vec<bool> = bytes(&a).iter().map(|e| *e != 0).collect(); f.create_vector(&v) });
                        let s = first(&x["s"]).map(|a| { let v: Vec<_> = a.as_array().unwrap().iter().map(|e| f.create_string(e.as_str().unwrap())).collect(); f.create_vector(&v) });
                        Values::create(f, &ValuesArgs { float_value: d, int_value: i, uint_value: u, bool_value: b, string_value: s })
                    });
                    Column::create(f, &ColumnArgs { name, column_type: ColumnType(c["ct"].as_i64().unwrap() as i32), field_type: FieldType(c["ft"].as_i64().unwrap() as i32), col_values: vals, nullbits: nb })
                }).collect();
                f.create_vector(&v)
            });
            Table::create(f, &TableArgs { tab, columns: cols, num_rows: t["rows"].as_u64().unwrap() })
        }).collect();
        f.create_vector(&v)
    });
    let p = Points::create(f, &PointsArgs { db, tables });
    f.finish(p, None);
    answer(fbb.finished_data())
}
fn main() {
    isolate_stdout();
    let mut g = grpc::Grpc::new();
    let mut rp = rpc::Rpc::new();
    drive(&["msg", "points", "raw", "call", "ping", "rpc", "enum"], |op| match s(op, "op").as_str() {
        "msg" => types::run(&s(op, "ty"), &bytes(&op["in"]), &s(op, "via")),
        "points" => build(op),
        "raw" => raw(op),
        "call" => g.call(op),
        "ping" => g.ping(op),
        "rpc" => rp.call(op),
        "enum" => enums::run(op),
        x => panic!("HARNESS: op {x}"),
    });
}
