//! The timed, bounded, optionally compressing clients against a server of our own on loopback.
use h_util::*;
use protos::kv_service::tskv_service_server::{TskvService, TskvServiceServer};
use protos::kv_service::*;
use protos::raft_service::raft_service_server::{RaftService, RaftServiceServer};
use protos::raft_service::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::codec::CompressionEncoding;
use tonic::{Request, Response, Status};

#[derive(Default)]
struct St { delay: u64, fail: bool, resp: Vec<u8>, seen: Vec<(Vec<u8>, String, Vec<String>)> }
#[derive(Clone)]
struct Srv(Arc<Mutex<St>>);
impl Srv {
    async fn take<T>(&self, r: Request<T>, g: impl FnOnce(T) -> Vec<u8>) -> Result<Vec<u8>, Status> {
        let enc = r.metadata().get("grpc-encoding").map(|v| v.to_str().unwrap_or("?").to_string()).unwrap_or("identity".into());
        let acc = r.metadata().get("grpc-accept-encoding").map(|v| v.to_str().unwrap_or("?").to_string()).unwrap_or_default();
        let (d, fail, resp) = {
            let b = g(r.into_inner());
            let mut s = self.0.lock().unwrap();
            s.seen.push((b, enc, acc.split(',').map(|x| x.trim().to_string()).collect()));
            (s.delay, s.fail, s.resp.clone())
        };
        if d > 0 { tokio::time::sleep(Duration::from_millis(d)).await; }
        if fail { Err(Status::internal("no")) } else { Ok(resp) }
    }
}
type Stream1 = tokio_stream::Iter<std::vec::IntoIter<Result<BatchBytesResponse, Status>>>;
#[tonic::async_trait]
impl TskvService for Srv {
    type DownloadFileStream = Stream1;
    type TagScanStream = Stream1;
    type QueryRecordBatchStream = Stream1;
    async fn ping(&self, r: Request<PingRequest>) -> Result<Response<PingResponse>, Status> {
        let b = self.take(r, |m| { let mut v = vec![(m.version % 256) as u8]; v.extend(m.body); v }).await?;
        Ok(Response::new(PingResponse { version: 1, body: b }))
    }
    async fn download_file(&self, r: Request<DownloadFileRequest>) -> Result<Response<Stream1>, Status> {
        let b = self.take(r, |m| m.filename.into_bytes()).await?;
        Ok(Response::new(tokio_stream::iter(vec![Ok(BatchBytesResponse { code: 0, data: b.clone() }), Ok(BatchBytesResponse { code: 1, data: b })])))
    }
    async fn tag_scan(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<Stream1>, Status> { Err(Status::unimplemented("tag_scan")) }
    async fn query_record_batch(&self, r: Request<QueryRecordBatchRequest>) -> Result<Response<Stream1>, Status> {
        let b = self.take(r, |m| [m.args, m.expr, m.aggs].concat()).await?;
        Ok(Response::new(tokio_stream::iter(vec![Ok(BatchBytesResponse { code: 2, data: b })])))
    }
    async fn raft_write(&self, r: Request<RaftWriteCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        let b = self.take(r, |m| match m.command { Some(raft_write_command::Command::WriteData(d)) => d.data, _ => vec![] }).await?;
        Ok(Response::new(BatchBytesResponse { code: 3, data: b }))
    }
    async fn admin_request(&self, r: Request<AdminCommand>) -> Result<Response<BatchBytesResponse>, Status> {
        let b = self.take(r, |m| m.tenant.into_bytes()).await?;
        Ok(Response::new(BatchBytesResponse { code: 4, data: b }))
    }
}
#[tonic::async_trait]
impl RaftService for Srv {
    async fn raft_vote(&self, r: Request<RaftVoteReq>) -> Result<Response<RaftResponse>, Status> {
        let b = self.take(r, |m| m.data.into_bytes()).await?;
        Ok(Response::new(RaftResponse { code: 5, data: String::from_utf8(b).unwrap() }))
    }
    async fn raft_snapshot(&self, r: Request<RaftSnapshotReq>) -> Result<Response<RaftResponse>, Status> {
        let b = self.take(r, |m| m.data).await?;
        Ok(Response::new(RaftResponse { code: 6, data: String::from_utf8(b).unwrap() }))
    }
    async fn raft_append_entries(&self, r: Request<RaftAppendEntriesReq>) -> Result<Response<RaftResponse>, Status> {
        let b = self.take(r, |m| m.data).await?;
        Ok(Response::new(RaftResponse { code: 7, data: String::from_utf8(b).unwrap() }))
    }
}
pub struct Grpc { rt: tokio::runtime::Runtime, st: Arc<Mutex<St>>, addr: Option<String> }
/// lower-case text that does not compress well
fn noise(n: usize) -> Vec<u8> { let mut x = 12345u64; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b'a' + (x % 26) as u8 }).collect() }
impl Grpc {
    pub fn new() -> Self { Grpc { rt: tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(), st: Default::default(), addr: None } }
    fn serve(&mut self) -> String {
        if let Some(a) = &self.addr { return a.clone(); }
        let l = self.rt.block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("HARNESS bind");
        let a = l.local_addr().unwrap().to_string();
        let s = Srv(self.st.clone());
        let t = TskvServiceServer::new(s.clone()).accept_compressed(CompressionEncoding::Gzip).send_compressed(CompressionEncoding::Gzip).max_decoding_message_size(1 << 28).max_encoding_message_size(1 << 28);
        let r = RaftServiceServer::new(s).accept_compressed(CompressionEncoding::Gzip).send_compressed(CompressionEncoding::Gzip).max_decoding_message_size(1 << 28).max_encoding_message_size(1 << 28);
        self.rt.spawn(async move { tonic::transport::Server::builder().add_service(t).add_service(r).serve_with_incoming(tokio_stream::wrappers::TcpListenerStream::new(l)).await });
        self.addr = Some(a.clone());
        a
    }
    fn arm(&self, op: &Value) -> Vec<u8> {
        let resp = noise(u(op, "resp") as usize);
        *self.st.lock().unwrap() = St { delay: u(op, "delay"), fail: b(op, "fail"), resp: resp.clone(), seen: vec![] };
        resp
    }
    pub fn call(&mut self, op: &Value) -> Value {
        let a = self.serve();
        let resp = self.arm(op);
        let req = noise(u(op, "req") as usize);
        let text = String::from_utf8(req.clone()).unwrap();
        let (to, max, gz) = (Duration::from_millis(u(op, "timeout")), u(op, "max") as usize, b(op, "gzip"));
        let m = s(op, "method");
        let r: Result<(i64, Vec<u8>), String> = self.rt.block_on(async {
            let ch = tonic::transport::Endpoint::from_shared(format!("http://{a}")).unwrap().connect().await.expect("HARNESS connect");
            let e = |x: Status| format!("{:?}", x.code());
            if m.starts_with("raft_") && m != "raft_write" {
                let mut c = protos::raft_service_time_out_client(ch, to, max, gz);
                let r = match m.as_str() {
                    "raft_vote" => c.raft_vote(RaftVoteReq { group_id: 3, data: text }).await,
                    "raft_snapshot" => c.raft_snapshot(RaftSnapshotReq { group_id: 3, data: req.clone() }).await,
                    _ => c.raft_append_entries(RaftAppendEntriesReq { group_id: 3, data: req.clone() }).await,
                }.map_err(e)?.into_inner();
                return Ok((r.code as i64, r.data.into_bytes()));
            }
            let mut c = protos::tskv_service_time_out_client(ch, to, max, gz);
            match m.as_str() {
                "ping" => { let r = c.ping(PingRequest { version: 0, body: req.clone() }).await.map_err(e)?.into_inner(); Ok((r.version as i64, r.body)) }
                "raft_write" => { let r = c.raft_write(RaftWriteCommand { tenant: String::new(), db_name: String::new(), replica_id: 0, command: Some(raft_write_command::Command::WriteData(WriteDataRequest { data: req.clone(), precision: 0 })) }).await.map_err(e)?.into_inner(); Ok((r.code as i64, r.data)) }
                "admin" => { let r = c.admin_request(AdminCommand { tenant: text, command: None }).await.map_err(e)?.into_inner(); Ok((r.code as i64, r.data)) }
                "download" => {
                    let mut st = c.download_file(DownloadFileRequest { filename: text }).await.map_err(e)?.into_inner();
                    let mut n = 0; let mut last = vec![];
                    while let Some(x) = st.message().await.map_err(e)? { n = n * 10 + x.code as i64 + 1; last = x.data; }
                    Ok((n, last))
                }
                "query" => {
                    let mut st = c.query_record_batch(QueryRecordBatchRequest { args: req.clone(), expr: vec![], aggs: vec![] }).await.map_err(e)?.into_inner();
                    let x = st.message().await.map_err(e)?.expect("HARNESS no item");
                    Ok((x.code as i64, x.data))
                }
                _ => panic!("HARNESS method {m}"),
            }
        });
        let seen: Vec<Value> = self.st.lock().unwrap().seen.iter().map(|x| {
            let b = if m == "ping" { &x.0[1..] } else { &x.0[..] };
            json!({"same": b == req, "enc": x.1, "acc": x.2})
        }).collect();
        match r { Ok((c, d)) => json!({"res": "ok", "code": c, "same": d == resp, "seen": seen}), Err(e) => json!({"res": "err", "code": e, "same": false, "seen": seen}) }
    }
    pub fn ping(&mut self, op: &Value) -> Value {
        let live = self.serve();
        self.arm(op);
        let addr = match s(op, "to").as_str() {
            "live" => live,
            "closed" => { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); let a = l.local_addr().unwrap().to_string(); drop(l); a }
            _ => "not an address".into(),
        };
        let r = self.rt.block_on(protos::tskv_service_ping(&addr));
        let seen: Vec<Value> = self.st.lock().unwrap().seen.iter().map(|x| json!(x.0)).collect();
        json!({"res": if r.is_ok() { "ok" } else { "err" }, "msg": r.err().map(|m| !m.is_empty()).unwrap_or(true), "seen": seen})
    }
}
