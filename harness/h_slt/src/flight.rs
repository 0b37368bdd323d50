//! A Flight SQL server that answers as told and writes down every call it gets.
use arrow::datatypes::{Field, Schema};
use arrow::record_batch::RecordBatch;
use arrow_flight::flight_service_server::{FlightService, FlightServiceServer};
use arrow_flight::sql::{ActionCreatePreparedStatementRequest, ActionCreatePreparedStatementResult, Any, CommandPreparedStatementQuery, ProstMessageExt};
use arrow_flight::utils::batches_to_flight_data;
use arrow_flight::{Action, ActionType, Criteria, Empty, FlightData, FlightDescriptor, FlightEndpoint, FlightInfo, HandshakeRequest, HandshakeResponse, PutResult, SchemaResult, Ticket};
use futures::stream::{self, BoxStream};
use prost::Message;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use tonic::{Request, Response, Status, Streaming};

/// What to answer for a statement: {"fail": stage or "", "message", "fields": [[name, type]], "parts": [[batch rows]] , an absent ticket: null}
#[derive(Default)]
pub struct Book { pub answers: std::collections::HashMap<String, Value>, pub default: Value, pub login_fail: bool, pub seen: Vec<Value>, handles: Vec<(String, Value)> }
pub type Shared = Arc<Mutex<Book>>;
pub struct Mock(pub Shared);
type S<T> = BoxStream<'static, Result<T, Status>>;
fn meta<T>(r: &Request<T>) -> Value {
    let g = |k: &str| { let mut v = r.metadata().get_all(k).iter().map(|x| String::from_utf8_lossy(x.as_bytes()).to_string()).collect::<Vec<_>>(); if v.is_empty() { v.push(String::new()) }; v.join("|") };
    json!({"at": std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64(), "tenant": crate::ch(&g("tenant")), "db": crate::ch(&g("db")), "parts": g("target_partitions"), "auth": g("authorization")})
}
fn login(a: &str) -> (String, String) {
    let t = a.strip_prefix("Basic ").map(crate::unb64).unwrap_or_default();
    let (u, p) = t.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((t.clone(), String::new()));
    (u, p)
}
fn none<T>() -> Result<T, Status> { Err(Status::unimplemented("no")) }
fn told(a: &Value, stage: &str) -> Result<(), Status> { if a["fail"] == stage { Err(Status::internal(a["message"].as_str().unwrap_or("no").to_string())) } else { Ok(()) } }
pub fn batches(fields: &Value, rows: &[Value]) -> (Schema, RecordBatch) {
    let (mut fs, mut cs) = (vec![], vec![]);
    for (j, f) in fields.as_array().unwrap().iter().enumerate() {
        let vals = rows.iter().map(|r| crate::st(&r[j])).collect::<Vec<_>>();
        let (t, a) = crate::column(f[1].as_str().unwrap(), &vals);
        fs.push(Field::new(f[0].as_str().unwrap(), t, true)); cs.push(a);
    }
    let s = Schema::new(fs);
    let o = arrow::record_batch::RecordBatchOptions::new().with_row_count(Some(rows.len()));
    let b = RecordBatch::try_new_with_options(Arc::new(s.clone()), cs, &o).expect("HARNESS batch");
    (s, b)
}
#[tonic::async_trait]
impl FlightService for Mock {
    type HandshakeStream = S<HandshakeResponse>; type ListFlightsStream = S<FlightInfo>; type DoGetStream = S<FlightData>; type DoPutStream = S<PutResult>;
    type DoActionStream = S<arrow_flight::Result>; type ListActionsStream = S<ActionType>; type DoExchangeStream = S<FlightData>;
    async fn handshake(&self, r: Request<Streaming<HandshakeRequest>>) -> Result<Response<Self::HandshakeStream>, Status> {
        let mut m = meta(&r);
        let (u, p) = login(m["auth"].as_str().unwrap());
        m["auth"] = json!("basic"); m["call"] = json!("handshake"); m["user"] = crate::ch(&u); m["pass"] = crate::ch(&p);
        let mut g = self.0.lock().unwrap(); g.seen.push(m);
        if g.login_fail { return Err(Status::unauthenticated("no such user")) }
        let mut o = Response::new(Box::pin(stream::iter(vec![Ok(HandshakeResponse { protocol_version: 0, payload: "x".into() })])) as Self::HandshakeStream);
        o.metadata_mut().insert("authorization", "Bearer tok".parse().unwrap());
        Ok(o)
    }
    async fn list_flights(&self, _: Request<Criteria>) -> Result<Response<Self::ListFlightsStream>, Status> { none() }
    async fn get_flight_info(&self, r: Request<FlightDescriptor>) -> Result<Response<FlightInfo>, Status> {
        let mut m = meta(&r);
        let any = Any::decode(&*r.into_inner().cmd).map_err(|e| Status::internal(e.to_string()))?;
        let q: Option<CommandPreparedStatementQuery> = any.unpack().ok().flatten();
        let mut g = self.0.lock().unwrap();
        let Some(q) = q else { m["call"] = json!("info-other"); g.seen.push(m); return none() };
        let h = String::from_utf8_lossy(&q.prepared_statement_handle).to_string();
        m["call"] = json!("info"); m["what"] = json!(h); g.seen.push(m);
        let a = h.parse::<usize>().ok().and_then(|i| g.handles.get(i).cloned()).ok_or_else(|| Status::not_found("handle"))?.1;
        told(&a, "info")?;
        let (schema, _) = batches(&a["fields"], &[]);
        let mut i = FlightInfo::new().try_with_schema(&schema).map_err(|e| Status::internal(e.to_string()))?;
        for (k, p) in a["parts"].as_array().unwrap().iter().enumerate() {
            let e = FlightEndpoint::new();
            i = i.with_endpoint(if p.is_null() { e } else { e.with_ticket(Ticket { ticket: format!("{h}/{k}").into() }) });
        }
        Ok(Response::new(i))
    }
    async fn get_schema(&self, _: Request<FlightDescriptor>) -> Result<Response<SchemaResult>, Status> { none() }
    async fn do_get(&self, r: Request<Ticket>) -> Result<Response<Self::DoGetStream>, Status> {
        let mut m = meta(&r);
        let t = String::from_utf8_lossy(&r.get_ref().ticket).to_string();
        let mut g = self.0.lock().unwrap();
        let (h, k) = t.split_once('/').unwrap_or(("", ""));
        m["call"] = json!("get"); m["what"] = json!(t); g.seen.push(m);
        let a = h.parse::<usize>().ok().and_then(|i| g.handles.get(i).cloned()).ok_or_else(|| Status::not_found("ticket"))?.1;
        told(&a, &format!("get{k}"))?;
        let p = &a["parts"][k.parse::<usize>().unwrap()];
        let bs = p.as_array().unwrap().iter().map(|b| batches(&a["fields"], b.as_array().unwrap()).1).collect::<Vec<_>>();
        let mut d = batches_to_flight_data(batches(&a["fields"], &[]).0, bs).map_err(|e| Status::internal(e.to_string()))?.into_iter().map(Ok).collect::<Vec<_>>();
        if a["fail"] == format!("mid{k}") { d.push(Err(Status::internal(a["message"].as_str().unwrap().to_string()))) }
        Ok(Response::new(Box::pin(stream::iter(d))))
    }
    async fn do_put(&self, _: Request<Streaming<FlightData>>) -> Result<Response<Self::DoPutStream>, Status> { none() }
    async fn do_action(&self, r: Request<Action>) -> Result<Response<Self::DoActionStream>, Status> {
        let mut m = meta(&r);
        let t = r.get_ref().r#type.clone();
        let mut g = self.0.lock().unwrap();
        let q: Option<ActionCreatePreparedStatementRequest> = Any::decode(&*r.into_inner().body).ok().and_then(|a| a.unpack().ok().flatten());
        let Some(q) = q else { m["call"] = json!(t); g.seen.push(m); return Ok(Response::new(Box::pin(stream::empty()))) };
        m["call"] = json!("prepare"); m["what"] = json!(q.query); g.seen.push(m);
        let a = g.answers.get(&q.query).cloned().unwrap_or(g.default.clone());
        told(&a, "prepare")?;
        g.handles.push((q.query.clone(), a));
        let h = (g.handles.len() - 1).to_string();
        let o = ActionCreatePreparedStatementResult { prepared_statement_handle: h.into(), ..Default::default() };
        Ok(Response::new(Box::pin(stream::iter(vec![Ok(arrow_flight::Result { body: o.as_any().encode_to_vec().into() })]))))
    }
    async fn list_actions(&self, _: Request<Empty>) -> Result<Response<Self::ListActionsStream>, Status> { none() }
    async fn do_exchange(&self, _: Request<Streaming<FlightData>>) -> Result<Response<Self::DoExchangeStream>, Status> { none() }
}
/// starts the server on its own thread; returns its port
pub fn start(b: Shared) -> u16 {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    l.set_nonblocking(true).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async move {
        let l = tokio::net::TcpListener::from_std(l).unwrap();
        let inc = stream::unfold(l, |l| async move { let c = l.accept().await.map(|c| c.0); Some((c, l)) });
        tx.send(()).unwrap();
        tonic::transport::Server::builder().add_service(FlightServiceServer::new(Mock(b))).serve_with_incoming(inc).await.expect("HARNESS flight server");
    }));
    rx.recv().unwrap();
    port
}
pub fn reset(b: &Shared) { let mut g = b.lock().unwrap(); g.seen.clear(); g.handles.clear(); g.answers.clear(); g.login_fail = false; g.default = json!({"fail": "", "fields": [], "parts": []}); }
