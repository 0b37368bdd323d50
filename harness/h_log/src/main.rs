//! Logging and tracing set-up of the trace crate, one process per run (both are process-wide):
//! the parent scripts a child and reads back what reached stderr, the log directory and the span file.
use config::common::LogConfig;
use config::tskv::TraceConfig;
use h_util::*;
use minitrace::collector::{SpanContext, SpanId, TraceId};
use minitrace::Span;
use serde_json::{json, Value};
use std::path::Path;
use std::str::FromStr;
use std::time::{Duration, Instant};
use tracing::level_filters::LevelFilter;
use tracing::Level;

macro_rules! targets { ($($t:literal),* $(,)?) => {
    fn log(target: &str, level: &str, msg: &str) {
        match target { $($t => match level {
            "ERROR" => tracing::error!(target: $t, "{}", msg), "WARN" => tracing::warn!(target: $t, "{}", msg), "INFO" => tracing::info!(target: $t, "{}", msg),
            "DEBUG" => tracing::debug!(target: $t, "{}", msg), "TRACE" => tracing::trace!(target: $t, "{}", msg), l => panic!("HARNESS level {l}") },)*
            t => panic!("HARNESS target {t}") }
    }
    fn all() -> Vec<&'static str> { vec![$($t),*] }
} }
targets!("client", "config", "coordinator", "e2e_test", "error_code", "macros", "http_protocol", "limiter_bucket", "lru_cache", "cnosdb", "memory_pool", "meta", "metrics", "models",
    "protos", "protocol_parser", "query", "spi", "sqllogicaltests", "test", "trace", "tskv", "utils", "replication", "datafusion", "arrow", "actix_web::middleware::logger",
    "actix_web::middleware", "tokio", "runtime", "h2::codec", "hyper", "tskv::wal::writer", "cnosdb_meta::store", "metrics2", "openraft", "query::dispatcher", "datafusion_optimizer", "Tskv", "ts", "tokio::task", "reqwest");

fn conf(v: &Value, dir: &str) -> LogConfig {
    let mut c = LogConfig::default();
    c.level = s(v, "level"); c.path = dir.to_string(); c.file_rotation = s(v, "rotation"); c.max_file_count = opt(&v["max"]).map(|n| n.as_u64().unwrap() as usize); c.tokio_trace = None;
    c
}
fn opt(v: &Value) -> Option<&Value> { v.as_array().and_then(|a| a.first()) }
fn files(dir: &str, prefix: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() { let n = e.file_name().to_string_lossy().to_string(); if n.starts_with(prefix) { out.push((n, std::fs::read_to_string(e.path()).unwrap_or_default())); } }
    }
    out.sort();
    out
}
fn child(v: &Value) {
    let dir = s(v, "dir");
    let mut first: Option<(String, String)> = None;
    for st in v["steps"].as_array().unwrap() {
        match s(st, "do").as_str() {
            k @ ("init" | "preset") => {
                let d = format!("{dir}/{}", s(st, "sub"));
                if k == "init" { trace::global_logging::init_global_logging(&conf(st, &d), &s(st, "file")); } else { trace::global_logging::init_default_global_tracing(&d, &s(st, "file"), &s(st, "level")); }
                first.get_or_insert((d, s(st, "file")));
            }
            "log" => log(&s(st, "target"), &s(st, "level"), &s(st, "msg")),
            "tracing" => {
                let mut c = TraceConfig::default();
                c.otlp_endpoint = None;
                c.trace_log_path = opt(&st["path"]).map(|p| format!("{dir}/{}", p.as_str().unwrap()));
                c.batch_report_interval = Duration::from_secs(3600); c.batch_report_max_spans = None; c.max_spans_per_trace = None;
                trace::global_tracing::init_global_tracing(&c, "t".into());
            }
            "span" => {
                let r = Span::root(s(st, "name"), SpanContext::new(TraceId(u(st, "trace") as u128), SpanId(0)));
                for i in 0..u(st, "kids") { drop(Span::enter_with_parent(format!("{}.{i}", s(st, "name")), &r)); }
            }
            "flush" => trace::global_tracing::finalize_global_tracing(),
            "minute" => {
                let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
                std::thread::sleep(Duration::from_millis(60_300 - (now.as_millis() % 60_000) as u64));
            }
            "settle" => if let Some((d, f)) = &first {      // until the writer thread has caught up
                let m = s(st, "msg");
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(4) && !files(d, f).iter().any(|(_, c)| c.contains(&format!("{m}\n"))) { std::thread::sleep(Duration::from_millis(5)); }
            },
            o => panic!("HARNESS step {o}"),
        }
    }
}
fn lines(t: &str) -> Value {
    json!(t.lines().filter(|l| !l.contains(" trace::global_logging: ")).map(|l| { let w = l.split_whitespace().collect::<Vec<_>>();
        if w.len() == 4 && w[2].ends_with(':') && w[0].contains('T') { json!([w[1], w[2][..w[2].len() - 1], w[3]]) } else { json!(["?", "?", l]) } }).collect::<Vec<_>>())
}
fn spans(t: &str) -> Value {
    let mut out = t.split("SpanRecord {").skip(1).map(|c| {
        let name = c.split("name: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("?").to_string();
        let tr = c.split("TraceId(").nth(1).and_then(|x| x.split(',').next()).map(|x| x.trim().to_string()).unwrap_or_default();
        (name, tr.parse::<u64>().unwrap_or(999999))
    }).collect::<Vec<_>>();
    out.sort();
    json!(out.iter().map(|(n, t)| json!([n, t])).collect::<Vec<_>>())
}
fn shape(n: &str, prefix: &str) -> String { n[prefix.len()..].chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).collect() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "child" { child(&serde_json::from_str(&a[2]).unwrap()); return; }
    let root = Path::new(&a[1]).to_path_buf();
    std::fs::create_dir_all(&root).expect("HARNESS dir");
    let mut n = 0;
    drive(&["run", "filter", "known"], |op| match s(op, "op").as_str() {
        "known" => json!({"targets": all()}),
        "filter" => {
            let l = LevelFilter::from_str(&s(op, "level")).expect("HARNESS level");
            let f = trace::global_logging::targets_filter(l, b(op, "tokio"));
            json!({"got": f.would_enable(&s(op, "target"), &Level::from_str(&s(op, "at")).expect("HARNESS level"))})
        }
        "run" => {
            n += 1;
            let dir = root.join(format!("{}_{n}", std::process::id()));
            std::fs::create_dir_all(&dir).expect("HARNESS dir");
            let d = dir.to_str().unwrap().to_string();
            for f in op["pre"].as_array().unwrap() {
                let p = dir.join(f[0].as_str().unwrap());
                std::fs::create_dir_all(p.parent().unwrap()).expect("HARNESS dir");
                std::fs::write(p, f[1].as_str().unwrap()).expect("HARNESS write");
            }
            let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").arg(json!({"dir": d, "steps": op["steps"]}).to_string()).env_remove("RUST_LOG").output().expect("HARNESS spawn");
            let err = String::from_utf8_lossy(&out.stderr).to_string();
            if err.contains("HARNESS") { panic!("HARNESS child {err}"); }
            let (sub, prefix) = (s(op, "sub"), s(op, "file"));
            let fs = files(&format!("{d}/{sub}"), &prefix);
            let mut other = 0;
            for st in op["others"].as_array().unwrap() { other += files(&format!("{d}/{}", st[0].as_str().unwrap()), st[1].as_str().unwrap()).len(); }
            let tr = op["traces"].as_array().unwrap().iter().map(|p| match std::fs::read_to_string(format!("{d}/{}/trace.log", p.as_str().unwrap())) {
                Ok(t) => json!([t.split("SpanRecord {").next().unwrap_or(""), spans(&t)]), Err(_) => json!([]) }).collect::<Vec<_>>();
            let r = json!({"code": out.status.code().unwrap_or(-1), "err": lines(&err.lines().filter(|l| !l.starts_with("unrecognized file_rotation") && !l.contains(" trace::global_logging: ")).collect::<Vec<_>>().join("\n")), "warned": err.contains("unrecognized file_rotation"),
                "file": fs.iter().flat_map(|(_, c)| lines(c).as_array().unwrap().clone()).collect::<Vec<_>>(), "shapes": fs.iter().map(|(n, _)| shape(n, &prefix)).collect::<Vec<_>>(), "other": other, "spans": tr});
            std::fs::remove_dir_all(&dir).expect("HARNESS rm");
            // one event per step of the child, then what it left behind
            let mut evs = vec![json!({"op": "run"})];
            for st in op["steps"].as_array().unwrap() { let mut e = st.clone(); e["op"] = json!("step"); evs.push(e); }
            let mut o = op.clone();
            for (k, v) in r.as_object().unwrap() { o[k] = v.clone(); }
            o["op"] = json!("outcome"); o.as_object_mut().unwrap().remove("steps"); o.as_object_mut().unwrap().remove("pre");
            evs.push(o);
            Value::Array(evs)
        }
        o => panic!("HARNESS op {o}"),
    });
    std::process::exit(0);
}
