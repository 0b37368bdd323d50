//! Data nodes that answer pings (addresses a1..a4) and ones that do not (x1, x2).
use protos::kv_service::tskv_service_server::{TskvService, TskvServiceServer};
use protos::kv_service::*;
use std::collections::HashMap;
use tonic::{Request, Response, Status};

struct P;
type S = tokio_stream::Iter<std::vec::IntoIter<Result<BatchBytesResponse, Status>>>;
#[tonic::async_trait]
impl TskvService for P {
    type DownloadFileStream = S;
    type TagScanStream = S;
    type QueryRecordBatchStream = S;
    async fn ping(&self, r: Request<PingRequest>) -> Result<Response<PingResponse>, Status> { Ok(Response::new(PingResponse { version: 1, body: r.into_inner().body })) }
    async fn download_file(&self, _: Request<DownloadFileRequest>) -> Result<Response<S>, Status> { Err(Status::unimplemented("")) }
    async fn tag_scan(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<S>, Status> { Err(Status::unimplemented("")) }
    async fn query_record_batch(&self, _: Request<QueryRecordBatchRequest>) -> Result<Response<S>, Status> { Err(Status::unimplemented("")) }
    async fn raft_write(&self, _: Request<RaftWriteCommand>) -> Result<Response<BatchBytesResponse>, Status> { Err(Status::unimplemented("")) }
    async fn admin_request(&self, _: Request<AdminCommand>) -> Result<Response<BatchBytesResponse>, Status> { Err(Status::unimplemented("")) }
}
pub struct Pings { pub map: HashMap<String, String>, _rt: tokio::runtime::Runtime }
impl Pings {
    pub fn start() -> Self {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let mut map = HashMap::new();
        for k in ["a1", "a2", "a3", "a4"] {
            let l = rt.block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("HARNESS bind");
            map.insert(k.to_string(), l.local_addr().unwrap().to_string());
            rt.spawn(async move { tonic::transport::Server::builder().add_service(TskvServiceServer::new(P)).serve_with_incoming(tokio_stream::wrappers::TcpListenerStream::new(l)).await });
        }
        map.insert("x1".into(), "127.0.0.1:1".into());
        map.insert("x2".into(), "127.0.0.1:2".into());
        Pings { map, _rt: rt }
    }
    pub fn addr(&self, k: &str) -> String { self.map[k].clone() }
}
