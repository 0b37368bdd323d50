//! models::predicate against Domains.tla: sets are reported as the probes they contain.
use datafusion::arrow::datatypes::DataType;
use datafusion::prelude::{col, lit, Expr};
use datafusion::scalar::ScalarValue;
use h_util::*;
use models::predicate::domain::{ColumnDomains, Domain, Predicate, QueryExpr, Range, TimeRange, TimeRanges};
use models::predicate::transformation::{DeleteSelectionExpressionToDomainsVisitor as Del, RowExpressionToDomainsVisitor as Row};
use models::predicate::utils::filter_to_time_ranges;
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::{PhysicalDType, ValueType};
use serde_json::{json, Value};
use std::ops::RangeBounds;
use std::sync::Arc;

/// index 1.. of the line -> timestamp; 4 and 8 stand for the open spaces between
const LINE: [i64; 11] = [i64::MIN, i64::MIN + 1, i64::MIN + 2, -1_000_000_000_000_000_000, -1, 0, 1, 100_000_000_000_000_000, i64::MAX - 2, i64::MAX - 1, i64::MAX];
fn ts(v: &Value) -> i64 { LINE[v.as_u64().expect("HARNESS probe") as usize - 1] }
fn tr(v: &Value) -> TimeRange { TimeRange::new(ts(&v[0]), ts(&v[1])) }
fn set(f: impl Fn(i64) -> bool) -> Value { json!((1..=LINE.len()).filter(|k| f(LINE[k - 1])).collect::<Vec<_>>()) }
fn otr(r: Option<TimeRange>) -> Value { match r { None => json!([]), Some(r) => set(|t| r.contains(t)) } }
fn look(x: &TimeRanges) -> Value {
    let rs: Vec<_> = x.ranges().collect();
    let sorted = rs.windows(2).all(|w| w[0].1 < w[1].0) && rs.iter().all(|r| r.0 <= r.1);
    let same = x.time_ranges().map(|r| (r.min_ts, r.max_ts)).eq(rs.iter().copied());
    let probe = |t: i64| LINE.iter().position(|x| *x == t).map(|k| k + 1).unwrap_or(0);
    json!({"set": set(|t| rs.iter().any(|r| r.0 <= t && t <= r.1)), "contains": set(|t| x.contains(t)), "sorted": sorted && same && x.len() == rs.len(),
           "empty": x.is_empty(), "all": x.is_boundless(), "min": if x.is_empty() { 0 } else { probe(x.min_ts()) }, "max": if x.is_empty() { 0 } else { probe(x.max_ts()) },
           "span": if x.is_empty() { json!([]) } else { let m = x.max_time_range(); set(|t| m.contains(t)) }})
}

fn scalar(kind: &str, v: &Value) -> ScalarValue {
    match kind {
        "i" => ScalarValue::Int64(Some(v.as_i64().expect("HARNESS i"))),
        "u" => ScalarValue::UInt64(Some(v.as_u64().expect("HARNESS u"))),
        "f" => ScalarValue::Float64(Some(v.as_i64().expect("HARNESS f") as f64 / 2.0)),
        "t" => ScalarValue::TimestampNanosecond(Some(ts(v)), None),
        "b" => ScalarValue::Boolean(Some(v.as_i64() == Some(1))),
        _ => ScalarValue::Utf8(Some(word(v.as_u64().expect("HARNESS s")).to_string())),
    }
}
const WORDS: [&str; 9] = ["", "a", "a\u{0}", "ab", "b", "ba", "c", "z", "é"];
fn word(k: u64) -> &'static str { WORDS[k as usize] }
fn dtype(kind: &str) -> DataType { scalar(kind, &json!(1)).get_datatype() }
fn range(kind: &str, r: &Value) -> Vec<Range> {
    let t = dtype(kind);
    let v = |k: &str| scalar(kind, &r[k]);
    match r["o"].as_str().expect("HARNESS o") {
        "all" => vec![Range::all(&t)], "eq" => vec![Range::eq(&t, &v("v"))], "ne" => Range::ne(&t, &v("v")),
        "gt" => vec![Range::gt(&t, &v("v"))], "ge" => vec![Range::ge(&t, &v("v"))], "lt" => vec![Range::lt(&t, &v("v"))], "le" => vec![Range::le(&t, &v("v"))],
        "gtlt" => vec![Range::gtlt(&t, &v("v"), &v("w"))], "gelt" => vec![Range::gelt(&t, &v("v"), &v("w"))],
        "gtle" => vec![Range::gtle(&t, &v("v"), &v("w"))], "gele" => vec![Range::gele(&t, &v("v"), &v("w"))],
        o => panic!("HARNESS range {o}"),
    }
}
fn domain(d: &Value) -> Domain {
    let kind = s(d, "kind");
    match d["k"].as_str().expect("HARNESS k") {
        "all" => Domain::All, "none" => Domain::None,
        "ranges" => { let rs: Vec<Range> = d["rs"].as_array().unwrap().iter().flat_map(|r| range(&kind, r)).collect(); Domain::of_ranges(&rs).expect("of_ranges") }
        "values" => { let vs: Vec<ScalarValue> = d["vs"].as_array().unwrap().iter().map(|v| scalar(&kind, v)).collect(); Domain::of_values(&dtype(&kind), b(d, "white"), &vs.iter().collect::<Vec<_>>()) }
        k => panic!("HARNESS domain {k}"),
    }
}
fn admits(d: &Domain, v: &ScalarValue) -> bool {
    match d {
        Domain::All => true, Domain::None => false,
        Domain::Range(r) => r.low_indexed_ranges().into_iter().any(|(_, x)| x.contains(v)),
        Domain::Equtable(e) => e.entries().into_iter().any(|x| x.value() == v) == e.is_white_list(),
    }
}
/// how many ranges hold the value: they must not overlap
fn overlap(d: &Domain, v: &ScalarValue) -> bool { if let Domain::Range(r) = d { r.low_indexed_ranges().into_iter().filter(|(_, x)| x.contains(v)).count() > 1 } else { false } }
fn probes(kind: &str) -> Vec<Value> {
    match kind { "i" => (-4..=4).map(|x| json!(x)).collect(), "u" => (0..=8).map(|x| json!(x)).collect(), "f" => (-4..=4).map(|x| json!(x)).collect(),
                 "t" => (1..=11).map(|x| json!(x)).collect(), "b" => vec![json!(0), json!(1)], _ => (0..WORDS.len()).map(|x| json!(x)).collect() }
}
fn cols(d: &ColumnDomains<String>) -> Value {
    let mut o = serde_json::Map::new();
    let mut clean = true;
    if let Some(m) = d.domains() {
        for (c, x) in m {
            let ps: Vec<Value> = probes(&c[..1]).into_iter().filter(|p| { let v = scalar(&c[..1], p); clean &= !overlap(x, &v); admits(x, &v) }).collect();
            o.insert(c.clone(), json!(ps));
        }
    }
    let enc = bincode::serialize(d).expect("encode");
    let back: ColumnDomains<String> = bincode::deserialize(&enc).expect("decode");
    json!({"none": d.is_none(), "all": d.is_all(), "cols": o, "clean": clean, "back": &back == d, "shown": !format!("{d}").is_empty()})
}
fn expr(e: &Value) -> Expr {
    let val = |c: &str, v: &Value| Expr::Literal(scalar(&c[..1].replace("t", "t"), v));
    let name = |c: &str| if c == "t" { "time".to_string() } else { c.to_string() };
    match e["k"].as_str().expect("HARNESS k") {
        "and" => expr(&e["l"]).and(expr(&e["r"])), "or" => expr(&e["l"]).or(expr(&e["r"])), "not" => Expr::Not(Box::new(expr(&e["l"]))),
        "col" => col(name(&s(e, "c")).as_str()), "const" => lit(b(e, "v")), "null" => Expr::IsNull(Box::new(col(name(&s(e, "c")).as_str()))),
        "in" => { let c = s(e, "c"); datafusion::prelude::in_list(col(name(&c).as_str()), e["v"].as_array().unwrap().iter().map(|v| val(&c, v)).collect(), b(e, "neg")) }
        "cmp" => {
            let c = s(e, "c");
            let (l, r) = (col(name(&c).as_str()), val(&c, &e["v"]));
            let o = s(e, "o");
            if e["swap"].as_bool() == Some(true) {
                match o.as_str() { "=" => r.eq(l), "!=" => r.not_eq(l), "<" => r.gt(l), "<=" => r.gt_eq(l), ">" => r.lt(l), _ => r.lt_eq(l) }
            } else {
                match o.as_str() { "=" => l.eq(r), "!=" => l.not_eq(r), "<" => l.lt(r), "<=" => l.lt_eq(r), ">" => l.gt(r), _ => l.gt_eq(r) }
            }
        }
        k => panic!("HARNESS expr {k}"),
    }
}
fn named(d: &ColumnDomains<String>) -> Value {
    // column "time" is reported as "t"
    cols(&d.translate_column(|c| Some(if c == "time" { "t".to_string() } else { c.clone() })))
}

pub fn main() {
    let mut trs = TimeRanges::empty();
    let mut cd: ColumnDomains<String> = ColumnDomains::all();
    let tag = |n: &str, id| TableColumn::new(id, n.to_string(), ColumnType::Tag, Default::default());
    let fld = |n: &str, id, t| TableColumn::new(id, n.to_string(), ColumnType::Field(t), Default::default());
    let sch = Arc::new(TskvTableSchema::new("cnosdb".into(), "public".into(), "t".into(), vec![
        TableColumn::new(0, "time".into(), ColumnType::Time(datafusion::arrow::datatypes::TimeUnit::Nanosecond), Default::default()),
        tag("s1", 1), tag("s2", 2), fld("i1", 3, ValueType::Integer), fld("f1", 4, ValueType::Float), fld("b1", 5, ValueType::Boolean), fld("u1", 6, ValueType::Unsigned)]));
    let _ = PhysicalDType::Integer;
    drive(&["trs", "cd"], |op| {
        match s(op, "op").as_str() {
            // two ranges
            "pair" => {
                let (x, y) = (tr(&op["a"]), tr(&op["b"]));
                let mut m = x; m.merge(&y);
                let (l, r) = x.exclude(&y);
                json!({"overlaps": x.overlaps(&y), "includes": x.includes(&y), "inter": otr(x.intersect(&y)), "merge": otr(Some(m)), "left": otr(l), "right": otr(r),
                       "a_set": otr(Some(x)), "total": nat(x.total_time() as u128), "isnone": x.is_none(), "bound": x.is_boundless()})
            }
            "bounds" => {
                use std::ops::Bound::*;
                let mk = |k: &str, v: &Value| match k { "in" => Included(ts(v)), "ex" => Excluded(ts(v)), _ => Unbounded };
                let r = TimeRange::from((mk(&s(op, "lk"), &op["lv"]), mk(&s(op, "hk"), &op["hv"])));
                json!({"set": otr(Some(r)), "isnone": r.is_none()})
            }
            // a set of ranges, changed step by step
            "trs" => { trs = match s(op, "how").as_str() { "new" => TimeRanges::new(op["rs"].as_array().unwrap().iter().map(tr).collect()), "all" => TimeRanges::all(), "one" => { let r = tr(&op["rs"][0]); TimeRanges::with_inclusive_bounds(r.min_ts, r.max_ts) } _ => TimeRanges::empty() }; look(&trs) }
            "push" => { trs.push(tr(&op["r"])); look(&trs) }
            "extend" => { trs.extend_from_slice(&op["rs"].as_array().unwrap().iter().map(tr).collect::<Vec<_>>()); look(&trs) }
            "inter" => { let r = trs.intersect(&tr(&op["r"])); let none = r.is_none(); trs = r.unwrap_or_else(TimeRanges::empty); let mut v = look(&trs); v["isnone"] = json!(none); v }
            "excl" => { trs = trs.exclude(&tr(&op["r"])); look(&trs) }
            "excls" => { let rs: Vec<TimeRange> = op["rs"].as_array().unwrap().iter().map(tr).collect(); trs = trs.exclude_time_ranges(&rs.iter().collect::<Vec<_>>()); look(&trs) }
            "ask" => { let r = tr(&op["r"]); let rest = r.exclude_time_ranges(&trs);
                       json!({"overlaps": trs.overlaps(&r), "includes": trs.includes(&r), "rest": rest.as_ref().map(|x| look(x)["set"].clone()).unwrap_or(json!([])), "restnone": rest.is_none()}) }
            // a conjunction of column domains, changed step by step
            "cd" => { cd = match s(op, "how").as_str() { "none" => ColumnDomains::none(), "of" => ColumnDomains::of(s(op, "c"), &domain(&op["d"])), _ => ColumnDomains::all() }; cols(&cd) }
            "cinter" | "cunion" => {
                let mut o: ColumnDomains<String> = if b(op, "onone") { ColumnDomains::none() } else { ColumnDomains::all() };
                for p in op["cs"].as_array().unwrap() { o.insert_or_intersect(s(p, "c"), &domain(&p["d"])) }
                if s(op, "op") == "cinter" { cd.intersect(&o) } else { cd.column_wise_union(&o) }
                cols(&cd)
            }
            "cadd" => { cd.insert_or_intersect(s(op, "c"), &domain(&op["d"])); cols(&cd) }
            "calt" => { cd.insert_or_union(s(op, "c"), &domain(&op["d"])); cols(&cd) }
            // what a filter is turned into
            "expr" => {
                let e = expr(&op["e"]);
                let d = Row::expr_to_column_domains(&e).expect("domains").translate_column(|c| Some(c.name.clone()));
                let del = match Del::expr_to_tag_and_time_domains(&e) { Ok((g, t)) => {
                    let rs = TimeRanges::new(filter_to_time_ranges(&t));
                    json!({"tags": named(&g), "times": look(&rs)["set"]}) } Err(_) => json!([]) };
                let p = Predicate::push_down_filter(Some(e), &sch.to_df_schema().unwrap(), &sch.to_arrow_schema(), None).expect("push").resolve(&sch).expect("resolve");
                json!({"dom": named(&d), "del": del, "times": look(&p.time_ranges())["set"], "tags": named(p.tags_filter())})
            }
            o => panic!("HARNESS op {o}"),
        }
    });
    let _ = std::marker::PhantomData::<QueryExpr>;
}
