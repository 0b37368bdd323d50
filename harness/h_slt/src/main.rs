//! The SQL logic test runner's parts, driven by scripts.
mod common;
mod flight;
use common::*;
use arrow::datatypes::*;
use arrow::record_batch::RecordBatch;
use h_util::*;
use serde_json::{json, Value};
use sqllogicaltests::verif_hooks as v;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Default, Clone)]
struct Seen { method: String, path: String, query: Vec<(String, String)>, user: String, pass: String, accept: String, body: String }
struct Server { status: u16, reply: String, seen: Vec<Seen> }
fn unesc(t: &str) -> String {
    let b = t.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'%' { o.push(u8::from_str_radix(&t[i + 1..i + 3], 16).unwrap()); i += 3 } else { o.push(if b[i] == b'+' { b' ' } else { b[i] }); i += 1 } }
    String::from_utf8(o).unwrap()
}
fn serve(l: std::net::TcpListener, st: Arc<Mutex<Server>>) {
    for c in l.incoming() {
        let Ok(mut c) = c else { continue };
        let mut buf = vec![]; let mut t = [0u8; 4096];
        let (head, n) = loop {
            let k = c.read(&mut t).unwrap_or(0); buf.extend_from_slice(&t[..k]);
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let h = String::from_utf8_lossy(&buf[..p]).to_string();
                let n = h.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse::<usize>().unwrap())).unwrap_or(0);
                if buf.len() >= p + 4 + n { break (h, p + 4) }
            }
            if k == 0 { break (String::new(), 0) }
        };
        if head.is_empty() { continue }
        let mut s = Seen { body: String::from_utf8_lossy(&buf[n..]).to_string(), ..Default::default() };
        for (i, line) in head.lines().enumerate() {
            if i == 0 { let mut w = line.split(' '); s.method = w.next().unwrap().into(); let p = w.next().unwrap(); let (a, q) = p.split_once('?').unwrap_or((p, ""));
                s.path = a.into(); s.query = q.split('&').filter(|x| !x.is_empty()).map(|x| { let (k, v) = x.split_once('=').unwrap(); (unesc(k), unesc(v)) }).collect(); }
            else if let Some((k, v)) = line.split_once(": ") { match k.to_lowercase().as_str() {
                "authorization" => { if let Some(t) = v.strip_prefix("Basic ") { let t = unb64(t); let (u, p) = t.split_once(':').unwrap_or((&t, "")); s.user = u.into(); s.pass = p.into() } }
                "accept" => s.accept = v.into(), _ => {} } }
        }
        let mut g = st.lock().unwrap(); g.seen.push(s);
        let _ = c.write_all(format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", g.status, g.reply.len(), g.reply).as_bytes());
    }
}
fn lines(t: &str) -> Value { if t.is_empty() { json!([]) } else { json!(t.split('\n').collect::<Vec<_>>()) } }
fn settings(c: &v::Client) -> Value {
    let (a, p, t, pr, chk) = c.settings();
    json!({"tenant": ch(&a[0]), "database": ch(&a[1]), "user": ch(&a[2]), "password": ch(&a[3]), "hhost": ch(&a[4]), "fhost": ch(&a[5]), "hport": p[0].map(|x| x as i64).unwrap_or(-1), "fport": p[1].map(|x| x as i64).unwrap_or(-1),
        "timeout": opt(t), "precision": pr.map(|x| json!([ch(&x)])).unwrap_or(json!([])), "chunked": opt(chk)})
}
fn path_of(v: &Value) -> String { v.as_array().unwrap().iter().map(|n| n.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8 as char).collect::<String>()).collect::<Vec<_>>().join("/") }
fn main() {
    isolate_stdout();
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let srv = Arc::new(Mutex::new(Server { status: 200, reply: String::new(), seen: vec![] }));
    { let s = srv.clone(); std::thread::spawn(move || serve(l, s)); }
    let scratch = std::path::PathBuf::from(std::env::var("VERIF_SCRATCH").expect("HARNESS scratch"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut c = v::Client::new(1, 1);
    let mut nd = 0;
    let book = flight::Shared::default();
    let fport = flight::start(book.clone());
    let cwd = std::env::current_dir().unwrap().to_string_lossy().to_string();
    drive(&["open", "create", "rows", "files"], |op| match s(op, "op").as_str() {
        "open" => {
            for k in ["CNOSDB_FLIGHT_HOST", "CNOSDB_FLIGHT_PORT", "CNOSDB_HTTP_HOST", "CNOSDB_HTTP_PORT", "CNOSDB_WORK_DIR"] {
                match op["env"][k].as_str() { Some(v) => std::env::set_var(k, v), None => std::env::remove_var(k) }
            }
            c = v::Client::new(s(op, "shard").parse().unwrap(), s(op, "replica").parse().unwrap());
            json!({"set": settings(&c), "cwd": cwd})
        }
        "record" => {
            let text = s(op, "src");
            match c.parse(&text) {
                Err(_) => json!({"ok": false, "sent": false, "set": settings(&c)}),
                Ok((r, http, kind, text)) => {
                    let mut o = json!({"ok": true, "http": http, "kind": kind, "text": lines(&text), "set": settings(&c), "sent": false});
                    if kind == "lp" || kind == "tsdb" || kind == "json" || (kind == "sql" && http) {
                        { let mut g = srv.lock().unwrap(); g.seen.clear(); g.status = u(op, "status") as u16; g.reply = op["reply"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("\n"); }
                        let out = rt.block_on(r.execute(&c.with_ports(port, fport)));
                        let g = srv.lock().unwrap();
                        o["sent"] = json!(g.seen.len() == 1);
                        if let Some(x) = g.seen.first() {
                            for (k, v) in [("method", json!(x.method)), ("path", json!(x.path)), ("user", ch(&x.user)), ("pass", ch(&x.pass)), ("accept", json!(x.accept)), ("body", lines(&x.body)),
                                ("query", json!(x.query.iter().map(|(k, v)| json!([k, ch(v)])).collect::<Vec<_>>())), ("done", json!(out.is_ok()))] { o[k] = v; }
                            let (t, r) = out.unwrap_or_default();
                            o["types"] = ch(&t); o["rows"] = json!(r);
                        }
                    }
                    if kind == "sql" && !http {
                        flight::reset(&book);
                        { let mut g = book.lock().unwrap(); g.default = op["fl"].clone(); g.login_fail = op["fl"]["fail"] == "login"; }
                        let out = rt.block_on(r.execute(&c.with_ports(port, fport)));
                        let mut g = book.lock().unwrap();
                        for x in g.seen.iter_mut() { x.as_object_mut().unwrap().remove("at"); }
                        o["calls"] = json!(g.seen); o["done"] = json!(out.is_ok());
                        let (t, r) = out.unwrap_or_default();
                        o["types"] = ch(&t); o["rows"] = json!(r.iter().map(|r| r.iter().map(|c| ch(c)).collect::<Vec<_>>()).collect::<Vec<_>>());
                    }
                    o
                }
            }
        }
        "create" => json!({"got": v::rewrite(s(op, "shard").parse().unwrap(), s(op, "replica").parse().unwrap(), &s(op, "sql"))}),
        "rows" => {
            let bs = op["batches"].as_array().unwrap().iter().map(|b| {
                let rows = b["rows"].as_array().unwrap();
                let (mut fs, mut cs) = (vec![], vec![]);
                for (j, f) in b["fields"].as_array().unwrap().iter().enumerate() {
                    let vals = rows.iter().map(|r| st(&r[j])).collect::<Vec<_>>();
                    let (t, a) = column(f[1].as_str().unwrap(), &vals);
                    fs.push(Field::new(f[0].as_str().unwrap(), t, true)); cs.push(a);
                }
                RecordBatch::try_new(Arc::new(Schema::new(fs)), cs).expect("HARNESS batch")
            }).collect::<Vec<_>>();
            let types = v::types(bs[0].schema().fields());
            match v::rows(bs) { Ok(r) => json!({"ok": true, "types": ch(&types), "rows": r.iter().map(|r| r.iter().map(|c| ch(c)).collect::<Vec<_>>()).collect::<Vec<_>>()}), Err(_) => json!({"ok": false, "types": ch(&types), "rows": []}) }
        }
        "files" => {
            nd += 1;
            let d = scratch.join(format!("t{nd}"));
            std::fs::create_dir_all(&d).unwrap();
            for e in op["tree"].as_array().unwrap() {
                let p = d.join(path_of(&e[0]));
                if e[1].as_bool().unwrap() { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, "").unwrap() } else { std::fs::create_dir_all(p).unwrap() }
            }
            let f = op["pats"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let r = v::files(&d, f);
            let ok = r.iter().all(|(p, q)| *p == d.join(q));
            if !ok { panic!("absolute and relative paths differ") }
            json!({"got": r.iter().map(|(_, q)| q.components().map(|c| c.as_os_str().to_str().unwrap().bytes().collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }
        o => panic!("HARNESS op {o}"),
    });
    std::process::exit(0);
}
