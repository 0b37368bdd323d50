//! Every remote method through its plain client and server on loopback: the path, the requests the server saw, the replies the client saw.
use h_util::*;
use prost::Message;
use protos::{jaeger_storage_v1 as j, kv_service as k, raft_service as ra, trace_service as ts};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tonic::{Request, Response, Status, Streaming};

#[derive(Default)]
struct St { fail: bool, reply: Vec<Vec<u8>>, seen: Vec<Vec<u8>>, path: Vec<String> }
#[derive(Clone)]
struct Srv(Arc<Mutex<St>>);
type Out<T> = tokio_stream::Iter<std::vec::IntoIter<Result<T, Status>>>;
impl Srv {
    fn note<Q: Message>(&self, q: &Q) -> Result<Vec<Vec<u8>>, Status> {
        let mut s = self.0.lock().unwrap();
        s.seen.push(q.encode_to_vec());
        if s.fail { Err(Status::aborted("no")) } else { Ok(s.reply.clone()) }
    }
    async fn one<Q: Message, R: Message + Default>(&self, r: Request<Q>) -> Result<Response<R>, Status> {
        Ok(Response::new(R::decode(&self.note(&r.into_inner())?[0][..]).expect("HARNESS reply")))
    }
    async fn many<Q: Message, R: Message + Default>(&self, r: Request<Q>) -> Result<Response<Out<R>>, Status> {
        Ok(Response::new(tokio_stream::iter(self.note(&r.into_inner())?.iter().map(|b| Ok(R::decode(&b[..]).expect("HARNESS reply"))).collect::<Vec<_>>())))
    }
}
#[tonic::async_trait]
impl k::tskv_service_server::TskvService for Srv {
    type DownloadFileStream = Out<k::BatchBytesResponse>;
    type TagScanStream = Out<k::BatchBytesResponse>;
    type QueryRecordBatchStream = Out<k::BatchBytesResponse>;
    async fn ping(&self, r: Request<k::PingRequest>) -> Result<Response<k::PingResponse>, Status> { self.one(r).await }
    async fn download_file(&self, r: Request<k::DownloadFileRequest>) -> Result<Response<Out<k::BatchBytesResponse>>, Status> { self.many(r).await }
    async fn tag_scan(&self, r: Request<k::QueryRecordBatchRequest>) -> Result<Response<Out<k::BatchBytesResponse>>, Status> { self.many(r).await }
    async fn query_record_batch(&self, r: Request<k::QueryRecordBatchRequest>) -> Result<Response<Out<k::BatchBytesResponse>>, Status> { self.many(r).await }
    async fn raft_write(&self, r: Request<k::RaftWriteCommand>) -> Result<Response<k::BatchBytesResponse>, Status> { self.one(r).await }
    async fn admin_request(&self, r: Request<k::AdminCommand>) -> Result<Response<k::BatchBytesResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl ra::raft_service_server::RaftService for Srv {
    async fn raft_vote(&self, r: Request<ra::RaftVoteReq>) -> Result<Response<ra::RaftResponse>, Status> { self.one(r).await }
    async fn raft_snapshot(&self, r: Request<ra::RaftSnapshotReq>) -> Result<Response<ra::RaftResponse>, Status> { self.one(r).await }
    async fn raft_append_entries(&self, r: Request<ra::RaftAppendEntriesReq>) -> Result<Response<ra::RaftResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl ts::trace_service_server::TraceService for Srv {
    async fn export(&self, r: Request<ts::ExportTraceServiceRequest>) -> Result<Response<ts::ExportTraceServiceResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl j::span_writer_plugin_server::SpanWriterPlugin for Srv {
    async fn write_span(&self, r: Request<j::WriteSpanRequest>) -> Result<Response<j::WriteSpanResponse>, Status> { self.one(r).await }
    async fn close(&self, r: Request<j::CloseWriterRequest>) -> Result<Response<j::CloseWriterResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl j::streaming_span_writer_plugin_server::StreamingSpanWriterPlugin for Srv {
    async fn write_span_stream(&self, r: Request<Streaming<j::WriteSpanRequest>>) -> Result<Response<j::WriteSpanResponse>, Status> {
        let mut st = r.into_inner();
        while let Some(m) = st.message().await? { let _ = self.note(&m); }
        let s = self.0.lock().unwrap();
        if s.fail { Err(Status::aborted("no")) } else { Ok(Response::new(j::WriteSpanResponse::decode(&s.reply[0][..]).expect("HARNESS reply"))) }
    }
}
#[tonic::async_trait]
impl j::span_reader_plugin_server::SpanReaderPlugin for Srv {
    type GetTraceStream = Out<j::SpansResponseChunk>;
    type FindTracesStream = Out<j::SpansResponseChunk>;
    async fn get_trace(&self, r: Request<j::GetTraceRequest>) -> Result<Response<Out<j::SpansResponseChunk>>, Status> { self.many(r).await }
    async fn get_services(&self, r: Request<j::GetServicesRequest>) -> Result<Response<j::GetServicesResponse>, Status> { self.one(r).await }
    async fn get_operations(&self, r: Request<j::GetOperationsRequest>) -> Result<Response<j::GetOperationsResponse>, Status> { self.one(r).await }
    async fn find_traces(&self, r: Request<j::FindTracesRequest>) -> Result<Response<Out<j::SpansResponseChunk>>, Status> { self.many(r).await }
    async fn find_trace_i_ds(&self, r: Request<j::FindTraceIDsRequest>) -> Result<Response<j::FindTraceIDsResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl j::archive_span_writer_plugin_server::ArchiveSpanWriterPlugin for Srv {
    async fn write_archive_span(&self, r: Request<j::WriteSpanRequest>) -> Result<Response<j::WriteSpanResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl j::archive_span_reader_plugin_server::ArchiveSpanReaderPlugin for Srv {
    type GetArchiveTraceStream = Out<j::SpansResponseChunk>;
    async fn get_archive_trace(&self, r: Request<j::GetTraceRequest>) -> Result<Response<Out<j::SpansResponseChunk>>, Status> { self.many(r).await }
}
#[tonic::async_trait]
impl j::dependencies_reader_plugin_server::DependenciesReaderPlugin for Srv {
    async fn get_dependencies(&self, r: Request<j::GetDependenciesRequest>) -> Result<Response<j::GetDependenciesResponse>, Status> { self.one(r).await }
}
#[tonic::async_trait]
impl j::plugin_capabilities_server::PluginCapabilities for Srv {
    async fn capabilities(&self, r: Request<j::CapabilitiesRequest>) -> Result<Response<j::CapabilitiesResponse>, Status> { self.one(r).await }
}
/// notes the path of every request before it reaches a service
#[derive(Clone)]
struct Paths<S>(S, Arc<Mutex<St>>);
impl<S: tower::Service<http::Request<B>>, B> tower::Service<http::Request<B>> for Paths<S> {
    type Response = S::Response;
    type Error = S::Error;
    type Future = S::Future;
    fn poll_ready(&mut self, c: &mut Context<'_>) -> Poll<Result<(), S::Error>> { self.0.poll_ready(c) }
    fn call(&mut self, r: http::Request<B>) -> S::Future { self.1.lock().unwrap().path.push(r.uri().path().to_string()); self.0.call(r) }
}
#[derive(Clone)]
struct PathsLayer(Arc<Mutex<St>>);
impl<S> tower::Layer<S> for PathsLayer { type Service = Paths<S>; fn layer(&self, s: S) -> Paths<S> { Paths(s, self.0.clone()) } }

pub struct Rpc { rt: tokio::runtime::Runtime, st: Arc<Mutex<St>>, addr: Option<String> }
fn list(v: &Value) -> Vec<Vec<u8>> { v.as_array().expect("HARNESS list").iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u8).collect()).collect() }
fn q<T: Message + Default>(b: &[u8]) -> T { T::decode(b).expect("HARNESS request") }
fn e(x: Status) -> String { format!("{:?}", x.code()) }
macro_rules! one { ($c:expr, $m:ident, $t:ty, $in:expr) => {{ let r = $c.$m(q::<$t>(&$in[0])).await.map_err(e)?; vec![r.into_inner().encode_to_vec()] }} }
macro_rules! many { ($c:expr, $m:ident, $t:ty, $in:expr) => {{ let mut st = $c.$m(q::<$t>(&$in[0])).await.map_err(e)?.into_inner(); let mut v = vec![]; while let Some(x) = st.message().await.map_err(e)? { v.push(x.encode_to_vec()); } v }} }
impl Rpc {
    pub fn new() -> Self { Rpc { rt: tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(), st: Default::default(), addr: None } }
    fn serve(&mut self) -> String {
        if let Some(a) = &self.addr { return a.clone(); }
        let l = self.rt.block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("HARNESS bind");
        let a = l.local_addr().unwrap().to_string();
        let s = Srv(self.st.clone());
        let p = PathsLayer(self.st.clone());
        self.rt.spawn(async move {
            tonic::transport::Server::builder().layer(p)
                .add_service(k::tskv_service_server::TskvServiceServer::new(s.clone())).add_service(ra::raft_service_server::RaftServiceServer::new(s.clone()))
                .add_service(ts::trace_service_server::TraceServiceServer::new(s.clone()))
                .add_service(j::span_writer_plugin_server::SpanWriterPluginServer::new(s.clone())).add_service(j::streaming_span_writer_plugin_server::StreamingSpanWriterPluginServer::new(s.clone()))
                .add_service(j::span_reader_plugin_server::SpanReaderPluginServer::new(s.clone())).add_service(j::archive_span_writer_plugin_server::ArchiveSpanWriterPluginServer::new(s.clone()))
                .add_service(j::archive_span_reader_plugin_server::ArchiveSpanReaderPluginServer::new(s.clone())).add_service(j::dependencies_reader_plugin_server::DependenciesReaderPluginServer::new(s.clone()))
                .add_service(j::plugin_capabilities_server::PluginCapabilitiesServer::new(s))
                .serve_with_incoming(tokio_stream::wrappers::TcpListenerStream::new(l)).await
        });
        self.addr = Some(a.clone());
        a
    }
    pub fn call(&mut self, op: &Value) -> Value {
        let a = self.serve();
        let ins = list(&op["in"]);
        *self.st.lock().unwrap() = St { fail: b(op, "fail"), reply: list(&op["reply"]), seen: vec![], path: vec![] };
        let m = s(op, "m");
        let r: Result<Vec<Vec<u8>>, String> = self.rt.block_on(async {
            let ch = tonic::transport::Endpoint::from_shared(format!("http://{a}")).unwrap().connect().await.expect("HARNESS connect");
            let mut kv = k::tskv_service_client::TskvServiceClient::new(ch.clone());
            let mut rf = ra::raft_service_client::RaftServiceClient::new(ch.clone());
            let mut tr = ts::trace_service_client::TraceServiceClient::new(ch.clone());
            let mut sw = j::span_writer_plugin_client::SpanWriterPluginClient::new(ch.clone());
            let mut ss = j::streaming_span_writer_plugin_client::StreamingSpanWriterPluginClient::new(ch.clone());
            let mut sr = j::span_reader_plugin_client::SpanReaderPluginClient::new(ch.clone());
            let mut aw = j::archive_span_writer_plugin_client::ArchiveSpanWriterPluginClient::new(ch.clone());
            let mut ar = j::archive_span_reader_plugin_client::ArchiveSpanReaderPluginClient::new(ch.clone());
            let mut dr = j::dependencies_reader_plugin_client::DependenciesReaderPluginClient::new(ch.clone());
            let mut pc = j::plugin_capabilities_client::PluginCapabilitiesClient::new(ch);
            Ok(match m.as_str() {
                "Ping" => one!(kv, ping, k::PingRequest, ins),
                "DownloadFile" => many!(kv, download_file, k::DownloadFileRequest, ins),
                "TagScan" => many!(kv, tag_scan, k::QueryRecordBatchRequest, ins),
                "QueryRecordBatch" => many!(kv, query_record_batch, k::QueryRecordBatchRequest, ins),
                "RaftWrite" => one!(kv, raft_write, k::RaftWriteCommand, ins),
                "AdminRequest" => one!(kv, admin_request, k::AdminCommand, ins),
                "RaftVote" => one!(rf, raft_vote, ra::RaftVoteReq, ins),
                "RaftSnapshot" => one!(rf, raft_snapshot, ra::RaftSnapshotReq, ins),
                "RaftAppendEntries" => one!(rf, raft_append_entries, ra::RaftAppendEntriesReq, ins),
                "Export" => one!(tr, export, ts::ExportTraceServiceRequest, ins),
                "WriteSpan" => one!(sw, write_span, j::WriteSpanRequest, ins),
                "Close" => one!(sw, close, j::CloseWriterRequest, ins),
                "GetTrace" => many!(sr, get_trace, j::GetTraceRequest, ins),
                "GetServices" => one!(sr, get_services, j::GetServicesRequest, ins),
                "GetOperations" => one!(sr, get_operations, j::GetOperationsRequest, ins),
                "FindTraces" => many!(sr, find_traces, j::FindTracesRequest, ins),
                "FindTraceIDs" => one!(sr, find_trace_i_ds, j::FindTraceIDsRequest, ins),
                "WriteArchiveSpan" => one!(aw, write_archive_span, j::WriteSpanRequest, ins),
                "GetArchiveTrace" => many!(ar, get_archive_trace, j::GetTraceRequest, ins),
                "GetDependencies" => one!(dr, get_dependencies, j::GetDependenciesRequest, ins),
                "Capabilities" => one!(pc, capabilities, j::CapabilitiesRequest, ins),
                "WriteSpanStream" => { let v: Vec<j::WriteSpanRequest> = ins.iter().map(|b| q(b)).collect(); let r = ss.write_span_stream(tokio_stream::iter(v)).await.map_err(e)?; vec![r.into_inner().encode_to_vec()] }
                _ => panic!("HARNESS method {m}"),
            })
        });
        let s = self.st.lock().unwrap();
        match r { Ok(v) => json!({"res": "ok", "out": v, "code": "", "seen": s.seen, "path": s.path}), Err(c) => json!({"res": "err", "out": [], "code": c, "seen": s.seen, "path": s.path}) }
    }
}
