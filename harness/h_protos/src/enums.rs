//! Numbers and words of every enumeration.
use serde_json::{json, Value};
macro_rules! en { ($t:ty, $op:expr) => {{
    let ns: Vec<Value> = $op["ns"].as_array().unwrap().iter().map(|n| match <$t>::from_i32(n.as_i64().unwrap() as i32) {
        Some(x) => json!([x.as_str_name(), x as i32, <$t>::is_valid(x as i32)]), None => json!([]) }).collect();
    #[allow(deprecated)]
    let ws: Vec<Value> = $op["ws"].as_array().unwrap().iter().map(|w| match <$t>::from_str_name(w.as_str().unwrap()) { Some(x) => json!([x as i32]), None => json!([]) }).collect();
    json!({"byn": ns, "byw": ws, "def": <$t>::default() as i32})
}} }
pub fn run(op: &Value) -> Value {
    use protos::prompb::prometheus as pp;
    match op["ty"].as_str().unwrap() {
        "jaeger_api_v2::ValueType" => en!(protos::jaeger_api_v2::ValueType, op),
        "jaeger_api_v2::SpanRefType" => en!(protos::jaeger_api_v2::SpanRefType, op),
        "trace::span::SpanKind" => en!(protos::trace::span::SpanKind, op),
        "trace::status::StatusCode" => en!(protos::trace::status::StatusCode, op),
        "trace::SpanFlags" => en!(protos::trace::SpanFlags, op),
        "prometheus::metric_metadata::MetricType" => en!(pp::metric_metadata::MetricType, op),
        "prometheus::histogram::ResetHint" => en!(pp::histogram::ResetHint, op),
        "prometheus::label_matcher::Type" => en!(pp::label_matcher::Type, op),
        "prometheus::chunk::Encoding" => en!(pp::chunk::Encoding, op),
        "prometheus::read_request::ResponseType" => en!(pp::read_request::ResponseType, op),
        t => panic!("HARNESS enum {t}"),
    }
}
