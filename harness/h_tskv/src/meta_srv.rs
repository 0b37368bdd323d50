//! A meta node: the real `StateMachine` behind the four HTTP routes the client uses.
use meta::store::command::{ReadCommand, WriteCommand};
use meta::store::storage::{response_encode, StateMachine};
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub async fn start(dir: &str) -> (String, Arc<tokio::sync::RwLock<StateMachine>>) {
    let sm = Arc::new(tokio::sync::RwLock::new(StateMachine::open(dir, 256 << 20).expect("HARNESS meta store")));
    let l = TcpListener::bind("127.0.0.1:0").await.expect("HARNESS bind");
    let addr = format!("127.0.0.1:{}", l.local_addr().unwrap().port());
    let (a, s) = (addr.clone(), sm.clone());
    tokio::spawn(async move {
        loop {
            if let Ok((c, _)) = l.accept().await { tokio::spawn(serve(c, s.clone(), a.clone())); }
        }
    });
    (addr, sm)
}

async fn serve(mut c: TcpStream, sm: Arc<tokio::sync::RwLock<StateMachine>>, addr: String) {
    let _ = c.set_nodelay(true);
    let mut buf: Vec<u8> = vec![];
    loop {
        let head = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p; }
            let mut t = [0u8; 8192];
            match c.read(&mut t).await { Ok(n) if n > 0 => buf.extend_from_slice(&t[..n]), _ => return }
        };
        let hdr = String::from_utf8_lossy(&buf[..head]).to_string();
        let path = hdr.split(' ').nth(1).unwrap_or("").to_string();
        let len: usize = hdr.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|v| v.trim().parse().unwrap())).unwrap_or(0);
        while buf.len() < head + 4 + len {
            let mut t = [0u8; 8192];
            match c.read(&mut t).await { Ok(n) if n > 0 => buf.extend_from_slice(&t[..n]), _ => return }
        }
        let body: Vec<u8> = buf[head + 4..head + 4 + len].to_vec();
        buf.drain(..head + 4 + len);
        let resp = match path.as_str() {
            "/read" => { let cmd: ReadCommand = serde_json::from_slice(&body).expect("HARNESS read"); sm.read().await.process_read_command(&cmd) }
            "/write" => { let cmd: WriteCommand = serde_json::from_slice(&body).expect("HARNESS write"); sm.read().await.process_write_command(&cmd).await }
            "/watch_meta_membership" => response_encode(Ok(vec![addr.clone()])),
            _ => { tokio::time::sleep(std::time::Duration::from_secs(3600)).await; return }
        };
        let out = format!("HTTP/1.1 200 OK\r\ncontent-length: {}\r\ncontent-type: application/json\r\n\r\n{}", resp.len(), resp);
        if c.write_all(out.as_bytes()).await.is_err() { return }
    }
}
