//! Loads configuration files and environments through the real `config` crate.
use config::{meta::Opt, tskv::Config};
use h_util::*;
use serde_json::{json, Value};
use std::io::Write;
use std::os::fd::AsRawFd;

trait V { fn v(&self) -> Value; }
impl V for u64 { fn v(&self) -> Value { nat(*self as u128) } }
impl V for u32 { fn v(&self) -> Value { nat(*self as u128) } }
impl V for u16 { fn v(&self) -> Value { nat(*self as u128) } }
impl V for usize { fn v(&self) -> Value { nat(*self as u128) } }
impl V for bool { fn v(&self) -> Value { json!(*self) } }
impl V for String { fn v(&self) -> Value { json!(self) } }
impl V for std::time::Duration { fn v(&self) -> Value { nat(self.as_nanos()) } }
impl V for Vec<String> { fn v(&self) -> Value { json!(self) } }
impl<T: V> V for Option<T> { fn v(&self) -> Value { match self { Some(x) => json!([x.v()]), None => json!([]) } } }

macro_rules! fields { ($c:expr, $($a:ident . $b:ident),* $(,)?) => {{ let mut m = serde_json::Map::new(); $( m.insert(concat!(stringify!($a), ".", stringify!($b)).to_string(), $c.$a.$b.v()); )* m }} }

fn data(c: &Config) -> Value {
    let mut m = fields!(c, global.node_id, global.host, global.cluster_name, global.store_metrics, global.pre_create_bucket,
        deployment.mode, deployment.cpu, deployment.memory,
        meta.service_addr, meta.report_time_interval, meta.usage_schema_cache_size, meta.cluster_schema_cache_size, meta.system_database_replica,
        query.max_server_connections, query.query_sql_limit, query.write_sql_limit, query.auth_enabled, query.read_timeout, query.write_timeout,
        query.stream_trigger_cpu, query.stream_executor_cpu, query.sql_record_timeout,
        storage.path, storage.max_summary_size, storage.base_file_size, storage.flush_req_channel_cap, storage.max_cached_readers, storage.max_level,
        storage.compact_trigger_file_num, storage.compact_trigger_cold_duration, storage.max_compact_size, storage.max_concurrent_compaction,
        storage.collect_compaction_metrics, storage.strict_write, storage.reserve_space, storage.copyinto_trigger_flush_size, storage.max_datablock_size,
        storage.index_cache_capacity, storage.tsm_meta_compress,
        wal.path, wal.wal_req_channel_cap, wal.max_file_size, wal.sync, wal.compress,
        cache.max_buffer_size, cache.partition,
        log.level, log.path, log.max_file_count, log.file_rotation,
        service.http_listen_port, service.grpc_listen_port, service.grpc_enable_gzip, service.flight_rpc_listen_port, service.tcp_listen_port,
        service.enable_report, service.jaeger_rpc_listen_port,
        cluster.raft_logs_to_keep, cluster.snapshot_holding_time, cluster.trigger_snapshot_interval, cluster.lmdb_max_map_size,
        cluster.heartbeat_interval, cluster.send_append_entries_timeout, cluster.install_snapshot_timeout,
        trace.auto_generate_span, trace.max_spans_per_trace, trace.batch_report_interval, trace.batch_report_max_spans, trace.otlp_endpoint, trace.trace_log_path);
    let t = c.security.tls_config.as_ref();
    m.insert("security.tls_config.certificate".into(), t.map(|t| t.certificate.clone()).v());
    m.insert("security.tls_config.private_key".into(), t.map(|t| t.private_key.clone()).v());
    m.insert("log.tokio_trace.addr".into(), c.log.tokio_trace.as_ref().map(|t| t.addr.clone()).v());
    Value::Object(m)
}
fn meta(c: &Opt) -> Value {
    let mut m = fields!(c, global.node_id, global.cluster_name, global.raft_node_host, global.listen_port, global.grpc_enable_gzip, global.data_path,
        cluster.lmdb_max_map_size, cluster.heartbeat_interval, cluster.raft_logs_to_keep, cluster.install_snapshot_timeout, cluster.send_append_entries_timeout,
        sys_config.usage_schema_cache_size, sys_config.cluster_schema_cache_size, sys_config.system_database_replica,
        log.level, log.path, log.max_file_count, log.file_rotation,
        heartbeat.heartbeat_recheck_interval, heartbeat.heartbeat_expired_interval);
    m.insert("log.tokio_trace.addr".into(), c.log.tokio_trace.as_ref().map(|t| t.addr.clone()).v());
    Value::Object(m)
}

fn captured(f: impl FnOnce()) -> String {
    let p = format!("{}/stdout", std::env::var("VERIF_SCRATCH").unwrap_or("/tmp".into()));
    let file = std::fs::File::create(&p).expect("HARNESS scratch");
    std::io::stdout().flush().unwrap();
    unsafe {
        let saved = libc::dup(1);
        libc::dup2(file.as_raw_fd(), 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        std::io::stdout().flush().unwrap();
        libc::dup2(saved, 1);
        libc::close(saved);
        if let Err(e) = r { std::panic::resume_unwind(e); }
    }
    std::fs::read_to_string(&p).expect("HARNESS scratch")
}

fn entries(txt: &str, kind: &str) -> Vec<Value> {
    let pre = format!("{kind} in entry '");
    txt.lines().filter_map(|l| l.strip_prefix(&pre)).filter_map(|l| l.strip_suffix("':"))
        .map(|e| { let (a, b) = match e.find('.') {
            // entry names are section.item; the one section with a dot is security.tls
            Some(_) if e.starts_with("security.tls.") => ("security.tls", &e[13..]),
            Some(p) => (&e[..p], &e[p + 1..]), None => (e, "") };
            json!([a, b]) }).collect()
}

fn main() {
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or("/tmp".into());
    let path = format!("{dir}/config.toml");
    let path2 = format!("{dir}/config2.toml");
    let mut last: Option<Config> = None;
    let mut last_meta: Option<Opt> = None;
    drive(&["load", "keys", "cli", "version"], |op| match s(op, "op").as_str() {
        "keys" => {
            let data = s(op, "kind") == "data";
            let m = if data { Config::env_keys() } else { Opt::env_keys() };
            let cap = captured(|| ());
            json!({"names": m.keys().collect::<Vec<_>>(), "paths": m.values().map(|p| p.to_lowercase()).collect::<Vec<_>>(), "quiet": cap.is_empty()})
        }
        "load" => {
            let kind = s(op, "kind");
            for (k, _) in std::env::vars() { if k.starts_with("CNOSDB_") { std::env::remove_var(k); } }
            for e in op["envtext"].as_array().unwrap() { std::env::set_var(e[0].as_str().unwrap(), e[1].as_str().unwrap()); }
            last = None; last_meta = None;
            let p: Option<&str> = match s(op, "from").as_str() {
                "none" => None,
                "missing" => Some("/nonexistent/verif/config.toml"),
                _ => { std::fs::write(&path, s(op, "text")).expect("HARNESS write"); Some(&path) }
            };
            let r = if kind == "data" {
                let r = Config::new(p);
                let v = r.as_ref().ok().map(data);
                last = r.ok(); v
            } else {
                let r = Opt::new(p);
                let v = r.as_ref().ok().map(meta);
                last_meta = r.ok(); v
            };
            for (k, _) in std::env::vars() { if k.starts_with("CNOSDB_") { std::env::remove_var(k); } }
            json!({"ok": r.is_some(), "eff": r.unwrap_or(json!({}))})
        }
        // written out and read back (no environment this time)
        "rewrite" => {
            let (txt, again) = match (&last, &last_meta) {
                (Some(c), _) => (c.to_string_pretty(), None),
                (_, Some(c)) => (c.to_string_pretty(), Some(())),
                _ => return json!({"ok": false, "eff": {}, "same": true}),
            };
            std::fs::write(&path2, &txt).expect("HARNESS write");
            let (ok, eff, txt2) = if again.is_none() {
                match Config::new(Some(&path2)) { Ok(c) => { let r = (true, data(&c), c.to_string_pretty()); last = Some(c); r } Err(_) => (false, json!({}), String::new()) }
            } else {
                match Opt::new(Some(&path2)) { Ok(c) => { let r = (true, meta(&c), c.to_string_pretty()); last_meta = Some(c); r } Err(_) => (false, json!({}), String::new()) }
            };
            json!({"ok": ok, "eff": eff, "same": txt == txt2})
        }
        "check" => {
            let Some(c) = &last else { return json!({"ok": false, "errors": [], "warns": [], "clean": false}) };
            std::fs::write(&path2, c.to_string_pretty()).expect("HARNESS write");
            let show = b(op, "show");
            let txt = captured(|| config::tskv::check_config(&path2, show));
            json!({"ok": true, "errors": entries(&txt, "Error"), "warns": entries(&txt, "Warn"),
                "clean": txt.starts_with("There are no errors in") , "allclean": txt.starts_with("There are no errors / warnings in")})
        }
        // the command line tool: @F is a file of the scratch directory that may already hold something, @D one in a directory that is not there
        "cli" => {
            let (out, bad) = (format!("{dir}/made.toml"), format!("{dir}/none/made.toml"));
            let _ = std::fs::remove_file(&out);
            if b(op, "pre") { std::fs::write(&out, "[global]\nnode_id = 99\n".repeat(400)).expect("HARNESS write"); }
            let exe = std::env::current_exe().unwrap().with_file_name("cnosdb-config");
            let args: Vec<String> = op["args"].as_array().unwrap().iter().map(|a| match a.as_str().unwrap() { "@F" => out.clone(), "@D" => bad.clone(), x => x.into() }).collect();
            let r = std::process::Command::new(&exe).args(&args).current_dir(&dir)
                .envs(op["envtext"].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap(), e[1].as_str().unwrap()))).output().expect("HARNESS cli");
            let made = std::fs::read_to_string(&out).ok();
            let so = String::from_utf8_lossy(&r.stdout).to_string();
            let se = String::from_utf8_lossy(&r.stderr).to_string();
            let read = |t: Option<&str>| -> Value {
                let Some(t) = t else { return json!({"data": [], "meta": []}) };
                std::fs::write(&path2, t).expect("HARNESS write");
                json!({"data": Config::new(Some(&path2)).ok().map(|c| vec![data(&c)]).unwrap_or_default(), "meta": Opt::new(Some(&path2)).ok().map(|c| vec![meta(&c)]).unwrap_or_default()})
            };
            json!({"rc": r.status.code().unwrap_or(-1), "lines": so.lines().take(300).collect::<Vec<_>>(), "usage": se.contains("Usage:"), "said": !se.trim().is_empty(),
                "file": if made.is_some() { "made" } else { "none" }, "eff": read(made.as_deref().or(Some(&so)))})
        }
        "version" => json!({"ws": version::workspace_version(), "own": version::crate_version!(), "num": env!("CARGO_PKG_VERSION"), "hash": version::GIT_HASH.unwrap_or("UNKNOWN"), "time": version::BUILD_TIME.unwrap_or("UNKNOWN"), "again": version::workspace_version()}),
        o => panic!("HARNESS op {o}"),
    });
}
