//! A server, a TLS server and a proxy on the loopback network, and what one request looks like to them.
use h_util::*;
use http_protocol::http_client::{Error, HttpClient};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

pub struct Net { plain: u16, tls: u16, proxy: u16, heard: Mutex<mpsc::Receiver<Value>>, rt: tokio::runtime::Runtime }
fn hear(who: &'static str, s: &mut dyn ReadWrite, tx: &mpsc::Sender<Value>) {
    let (mut b, mut one) = (vec![], [0u8; 512]);
    while !b.windows(4).any(|w| w == b"\r\n\r\n") { match s.read(&mut one) { Ok(n) if n > 0 => b.extend(&one[..n]), _ => return } }
    let t = String::from_utf8_lossy(&b).to_string();
    let mut w = t.lines().next().unwrap_or("").split(' ');
    let (m, target) = (w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string());
    if w.next().map(|v| !v.starts_with("HTTP/1.")).unwrap_or(true) { return; }
    let auth = t.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("proxy-authorization")).map(|(_, v)| v.trim().to_string())).unwrap_or_default();
    let _ = tx.send(json!([who, m, target, auth]));
    let _ = s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
    let _ = s.flush();
}
trait ReadWrite: Read + Write {}
impl<T: Read + Write> ReadWrite for T {}
fn dir() -> &'static str { concat!(env!("CARGO_MANIFEST_DIR"), "/tls") }
fn pem(n: &str) -> Vec<u8> { std::fs::read(format!("{}/{n}", dir())).expect("HARNESS pem") }

impl Net {
    pub fn new() -> Net {
        let (tx, rx) = mpsc::channel();
        let serve = |who: &'static str, tls: Option<Arc<rustls::ServerConfig>>| {
            let l = TcpListener::bind("127.0.0.1:0").expect("HARNESS bind");
            let (p, tx) = (l.local_addr().unwrap().port(), tx.clone());
            std::thread::spawn(move || for c in l.incoming().flatten() {
                let (tx, tls) = (tx.clone(), tls.clone());
                std::thread::spawn(move || {
                    let mut c: TcpStream = c;
                    let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
                    match tls {
                        None => hear(who, &mut c, &tx),
                        Some(cfg) => { let mut s = rustls::StreamOwned::new(rustls::ServerConnection::new(cfg).unwrap(), c); hear(who, &mut s, &tx); s.conn.send_close_notify(); let _ = s.flush(); }
                    }
                });
            });
            p
        };
        let certs = rustls_pemfile::certs(&mut &pem("server.pem")[..]).unwrap().into_iter().map(rustls::Certificate).collect();
        let key = rustls::PrivateKey(rustls_pemfile::pkcs8_private_keys(&mut &pem("server.key")[..]).unwrap().remove(0));
        let cfg = Arc::new(rustls::ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(certs, key).expect("HARNESS tls"));
        let (plain, tls, proxy) = (serve("plain", None), serve("tls", Some(cfg)), serve("proxy", None));
        Net { plain, tls, proxy, heard: Mutex::new(rx), rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
    }
    pub fn send(&self, op: &Value) -> Value {
        let port = if s(op, "server") == "tls" { self.tls } else { self.plain };
        let names: Vec<String> = op["certs"].as_array().unwrap().iter().map(|c| format!("{}/{}.pem", dir(), c.as_str().unwrap())).collect();
        let first = |k: &str| op[k].as_array().unwrap().first().and_then(|x| x.as_str()).map(|x| x.to_string());
        let url = first("proxy").map(|p| if p == "yes" { format!("http://127.0.0.1:{}", self.proxy) } else { p });
        let basic = op["basic"].as_array().unwrap().first().map(|b| (b[0].as_str().unwrap().to_string(), b[1].as_str().unwrap().to_string()));
        let plain = url.is_none() && basic.is_none() && first("custom").is_none();
        let c = if plain { HttpClient::new("localhost", port, b(op, "ssl"), b(op, "unsafe"), &names) } else { HttpClient::with_proxy_settings("localhost", port, b(op, "ssl"), b(op, "unsafe"), &names, &url, &basic, &first("custom")) };
        let c = match c { Ok(c) => c, Err(e) => {
            let named = names.iter().any(|n| e.to_string().contains(n.as_str()));
            return json!({"made": match e { Error::LoadCertificate { .. } => "load", Error::ParseCertificate { .. } => "parse", Error::BuildHeader { .. } => "header", Error::BuildReqwestHttpClient { .. } => "client" }, "named": named, "got": [], "status": 0}) } };
        let p = s(op, "path");
        let r = match s(op, "method").as_str() { "GET" => c.get(&p), "POST" => c.post(&p), "HEAD" => c.head(&p), "PUT" => c.put(&p), "PATCH" => c.patch(&p), "DELETE" => c.delete(&p), m => panic!("HARNESS {m}") };
        let st = self.rt.block_on(async { r.timeout(Duration::from_secs(20)).send().await.map(|x| x.status().as_u16()).unwrap_or(0) });
        let h = self.heard.lock().unwrap();
        let got = if st == 0 { h.recv_timeout(Duration::from_millis(30)).map(|v| json!([v])).unwrap_or(json!([])) } else { h.recv_timeout(Duration::from_secs(10)).map(|v| json!([v])).unwrap_or(json!([])) };
        // the address a proxy sees names the port
        let got = serde_json::from_str::<Value>(&got.to_string().replace(&format!("http://localhost:{port}"), "http://localhost:P")).unwrap();
        json!({"made": "ok", "named": false, "got": got, "status": st})
    }
}
