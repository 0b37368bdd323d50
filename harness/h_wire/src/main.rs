//! Encodings, error bodies, request parameters, trace contexts.
mod net;
use derive_traits::ErrorCode;
use h_util::*;
use http_protocol::encoding::Encoding;
use http_protocol::http_client::HttpClient;
use http_protocol::parameter::*;
use http_protocol::response::ErrorResponse;
use serde_json::{json, Value};
use std::collections::HashMap;
use trace::http::http_ctx::*;
use trace::http::tower_layer::TraceLayer;
use trace::span_ctx_ext::SpanContextExt;
use trace::span_ext::SpanExt;
use minitrace::collector::{SpanId, TraceId};
use trace::{Span, SpanContext};
use tower::{Layer, Service, ServiceExt};

fn expand(runs: &Value) -> Vec<u8> {
    let mut v = vec![];
    for r in runs.as_array().unwrap() { v.extend(std::iter::repeat(r[0].as_u64().unwrap() as u8).take(r[1].as_u64().unwrap() as usize)); }
    v
}
fn runs(b: &[u8]) -> Value {
    let mut v: Vec<[u64; 2]> = vec![];
    for &x in b { match v.last_mut() { Some(l) if l[0] == x as u64 => l[1] += 1, _ => v.push([x as u64, 1]) } }
    json!(v)
}
#[derive(Debug)]
struct Err1(&'static str, String);
impl std::fmt::Display for Err1 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.1) } }
impl std::error::Error for Err1 {}
impl ErrorCode for Err1 { fn code(&self) -> &'static str { self.0 } fn message(&self) -> String { self.1.clone() } }

fn hexdigits(s: &str) -> Value { json!(s.chars().map(|c| c.to_digit(16).unwrap()).collect::<Vec<_>>()) }
fn ids(c: &SpanContext) -> Value {
    let (t, p) = (c.trace_id.0, c.span_id.0);
    json!([hexdigits(&if t == 0 { String::new() } else { format!("{t:x}") }), hexdigits(&if p == 0 { String::new() } else { format!("{p:x}") })])
}
fn num(v: &Value) -> u128 { v.as_array().unwrap().iter().fold(0, |a, d| a * 16 + d.as_u64().unwrap() as u128) }
fn ctx_of(v: &Value) -> SpanContext { SpanContext::new(TraceId(num(&v[0])), SpanId(num(&v[1]) as u64)) }
fn text(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect() }
fn chars(s: &str) -> Value { json!(s.chars().map(|c| c.to_string()).collect::<Vec<_>>()) }
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(v: &Value) -> Value {
    match serde_json::from_value::<T>(v.clone()) { Ok(x) => json!([serde_json::to_value(&x).unwrap()]), Err(_) => json!([]) }
}
use h_util as _;
static SEEN: std::sync::Mutex<Vec<minitrace::collector::SpanRecord>> = std::sync::Mutex::new(Vec::new());
struct Keep;
impl minitrace::collector::Reporter for Keep { fn report(&mut self, r: &[minitrace::collector::SpanRecord]) { SEEN.lock().unwrap().extend(r.iter().cloned()) } }
fn main() {
    let mut blobs: HashMap<u64, Vec<u8>> = HashMap::new();
    let rt_ = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    minitrace::set_reporter(Keep, minitrace::collector::Config::default().batch_report_interval(std::time::Duration::from_secs(3600)));
    let mut net: Option<net::Net> = None;
    drive(&["start", "send", "words", "names", "error", "params", "span", "parse", "serve", "url"], |op| match s(op, "op").as_str() {
        "start" => { blobs.clear(); json!({}) }
        "enc" => {
            let e = Encoding::from_str_opt(&s(op, "kind")).expect("no such encoding");
            match e.encode(expand(&op["data"])) {
                Ok(b) => { let n = b.len(); blobs.insert(u(op, "id"), b); json!({"ok": true, "bytes": n}) }
                Err(_) => json!({"ok": false, "bytes": 0}),
            }
        }
        "dec" => {
            let e = Encoding::from_str_opt(&s(op, "kind")).expect("no such encoding");
            let mut b = blobs.get(&u(op, "id")).expect("HARNESS blob").clone();
            let cut = u(op, "cut") as usize;
            let n = b.len(); b.truncate(n - n.min(cut));
            match e.decode(b.into()) { Ok(b) => json!({"ok": true, "data": runs(&b)}), Err(_) => json!({"ok": false, "data": []}) }
        }
        "junk" => {
            let e = Encoding::from_str_opt(&s(op, "kind")).expect("no such encoding");
            let r = e.decode(expand(&op["data"]).into());
            json!({"ok": r.is_ok()})
        }
        "names" => {
            let a = op["try"].as_array().unwrap().iter().map(|n| match Encoding::from_str_opt(n.as_str().unwrap()) { Some(e) => json!([e.as_str(), e.to_header_value().to_str().unwrap()]), None => json!([]) }).collect::<Vec<_>>();
            json!({"got": a, "all": Encoding::iterator().map(|e| e.as_str()).collect::<Vec<_>>()})
        }
        "error" => {
            let e = Err1(Box::leak(s(op, "code").into_boxed_str()), s(op, "msg"));
            let r = ErrorResponse::new(&e);
            let (vec, ser) = (r.to_vec(), serde_json::to_vec(&r).unwrap());
            let look = |b: &[u8]| match serde_json::from_slice::<Value>(b) { Ok(v) => {
                let back = serde_json::from_slice::<ErrorResponse>(b);
                json!([v["error_code"], v["error_message"], v.as_object().map(|o| o.len()), back.as_ref().ok().map(|x| x.code()), back.ok().map(|x| x.message())]) }, Err(_) => json!([]) };
            json!({"body": look(&vec), "wire": look(&ser), "unknown": [derive_traits::error_code::UnknownCode.code(), derive_traits::error_code::UnknownCodeWithMessage(e.1.clone()).code()],
                   "unkmsg": derive_traits::error_code::UnknownCodeWithMessage(e.1.clone()).message()})
        }
        "params" => { let v = &op["v"]; json!({"got": match s(op, "which").as_str() {
            "sql" => rt::<SqlParam>(v), "write" => rt::<WriteParam>(v), "dump" => rt::<DumpParam>(v), "debug" => rt::<DebugParam>(v), "log" => rt::<LogParam>(v),
            "operation" => rt::<GetOperationParam>(v), "traces" => rt::<FindTracesParam>(v), o => panic!("HARNESS {o}") }}) }
        "span" => {
            let c = ctx_of(&op["ctx"]);
            let t = SpanContextExt::to_string(&c);
            let back = <SpanContext as SpanContextExt>::from_str(&t);
            let mut md = tonic::metadata::MetadataMap::new();
            let okm = grpc_append_trace_context(Some(&c), &mut md).is_ok();
            let mut none = tonic::metadata::MetadataMap::new();
            let okn = grpc_append_trace_context(None, &mut none).is_ok();
            let carried = span_context_from_http_headers(&md.clone().into_headers());
            let (sctx, cctx) = {
                let mut sp = Span::from_context("x", Some(&c));
                let mut child = Span::enter_with_parent("y", &sp);
                SpanExt::add_property(&mut sp, || ("k1", "v1"));
                SpanExt::add_property(&mut sp, || ("k2", "v2"));
                SpanExt::add_properties(&mut child, || [("k3", "v3"), ("k4", "v4")]);
                SpanExt::ok(&sp, "fine");
                SpanExt::error(&child, "broke");
                (SpanExt::context(&sp), SpanExt::context(&child))
            };
            minitrace::flush();
            let mut recs = std::mem::take(&mut *SEEN.lock().unwrap());
            recs.sort_by(|a, b| a.name.cmp(&b.name));
            let told = recs.iter().map(|r| json!([r.name, ids(&SpanContext::new(r.trace_id, SpanId(0)))[0], r.properties.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>(),
                r.events.iter().map(|e| json!([e.name, e.properties.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>()])).collect::<Vec<_>>()])).collect::<Vec<_>>();
            let rooted = recs.len() == 2 && recs[0].parent_id == c.span_id && recs[1].parent_id == recs[0].span_id;
            let noop = Span::from_context("x", None);
            json!({"text": chars(&t), "back": back.ok().map(|c| json!([ids(&c)])).unwrap_or(json!([])), "md": okm && okn && none.is_empty() && md.len() == 1,
                "carried": carried.ok().flatten().map(|c| json!([ids(&c)])).unwrap_or(json!([])),
                "told": told, "rooted": rooted, "child": cctx.map(|c| json!([ids(&c)[0]])).unwrap_or(json!([])), "trace": sctx.map(|c| json!([ids(&c)[0]])).unwrap_or(json!([])),
                "noop": SpanExt::context(&noop).is_none()})
        }
        "parse" => {
            let t = text(&op["text"]);
            let r = <SpanContext as SpanContextExt>::from_str(&t);
            json!({"got": r.ok().map(|c| json!([ids(&c)])).unwrap_or(json!([]))})
        }
        "serve" => {
            // a request through the tower layer
            let auto = b(op, "auto");
            let svc = tower::service_fn(|r: http::Request<u32>| async move { Ok::<_, ()>((*r.body(), r.extensions().get::<SpanContext>().copied(), r.headers().len())) });
            let mut l = TraceLayer::new(auto, "t").layer(svc);
            let mut req = http::Request::builder();
            let nh = op["headers"].as_array().unwrap().len();
            for h in op["headers"].as_array().unwrap() { req = req.header(h[0].as_str().unwrap(), http::HeaderValue::from_bytes(&expand(&h[1])).expect("HARNESS header")); }
            let out = rt_.block_on(async { l.ready().await.unwrap().call(req.body(u(op, "body") as u32).unwrap()).await.unwrap() });
            json!({"body2": out.0, "ctx": out.1.map(|c| json!([ids(&c)])).unwrap_or(json!([])), "kept": out.2 == nh})
        }
        "send" => net.get_or_insert_with(net::Net::new).send(op),
        "words" => {
            use http_protocol::header as h;
            use http_protocol::status_code as st;
            json!({"got": [["PRIVATE_KEY", h::PRIVATE_KEY], ["APPLICATION_PREFIX", h::APPLICATION_PREFIX], ["TEXT_PREFIX", h::TEXT_PREFIX], ["APPLICATION_CSV", h::APPLICATION_CSV], ["APPLICATION_TSV", h::APPLICATION_TSV],
                ["APPLICATION_JSON", h::APPLICATION_JSON], ["APPLICATION_NDJSON", h::APPLICATION_NDJSON], ["APPLICATION_TABLE", h::APPLICATION_TABLE], ["APPLICATION_STAR", h::APPLICATION_STAR], ["STAR_STAR", h::STAR_STAR],
                ["BASIC_PREFIX", h::BASIC_PREFIX], ["BEARER_PREFIX", h::BEARER_PREFIX], ["TENANT", h::TENANT], ["DB", h::DB], ["TABLE", h::TABLE], ["TARGET_PARTITIONS", h::TARGET_PARTITIONS], ["STREAM_TRIGGER_INTERVAL", h::STREAM_TRIGGER_INTERVAL],
                ["ACCEPT", h::ACCEPT.as_str()], ["AUTHORIZATION", h::AUTHORIZATION.as_str()], ["CONTENT_TYPE", h::CONTENT_TYPE.as_str()]],
                "codes": [st::OK.as_u16(), st::BAD_REQUEST.as_u16(), st::_UNAUTHORIZED.as_u16(), st::NOT_FOUND.as_u16(), st::METHOD_NOT_ALLOWED.as_u16(), st::PAYLOAD_TOO_LARGE.as_u16(), st::UNPROCESSABLE_ENTITY.as_u16(), st::INTERNAL_SERVER_ERROR.as_u16(), st::_SERVICE_UNAVAILABLE.as_u16()],
                "unknown": [derive_traits::error_code::UnknownCode.to_string(), derive_traits::error_code::UnknownCode.message(), format!("{}", derive_traits::error_code::UnknownCodeWithMessage("x".into()))],
                "empty": serde_json::to_string(&http_protocol::response::EmptyResponse {}).unwrap()})
        }
        "url" => {
            let c = HttpClient::new(&s(op, "host"), u(op, "port") as u16, b(op, "ssl"), b(op, "unsafe"), &[]).map_err(|_| ()).expect("client");
            let p = s(op, "path");
            json!({"url": c.url(&p)})
        }
        o => panic!("HARNESS op {o}"),
    });
    std::process::exit(0);
}
