//! In-crate access for the harness: everything here calls the runner's own functions.
use crate::db_request::{CnosdbRequest, Protocol, RequestBody};
use crate::instance::{CnosdbClient, CnosdbColumnType, CreateDatabaseOptions};
use crate::{CliOptions, CnosdbDeployMode, Options};
use arrow::datatypes::Fields;
use arrow::record_batch::RecordBatch;
use sqllogictest::ColumnType;
use std::path::{Path, PathBuf};

pub struct Client(pub CnosdbClient);
fn cli(filters: Vec<String>, shard: u32, replica: u32) -> CliOptions {
    CliOptions { filters, create_database_with_shard: shard, create_database_with_replica: replica, complete_cases: false, cnosdb_deploy_mode: CnosdbDeployMode::Singleton }
}
impl Client {
    pub fn new(shard: u32, replica: u32) -> Self { Client(CnosdbClient::new(&Options::from_cli_options(cli(vec![], shard, replica)))) }
    /// tenant, database, user, password, http host, http port, flight host, flight port, timeout ms, precision, chunked
    pub fn settings(&self) -> (Vec<String>, Vec<Option<u64>>, Option<u64>, Option<String>, Option<bool>) {
        let c = &self.0;
        let f = c.flight_endpoint.uri();
        (vec![c.tenant.clone(), c.database.clone(), c.username.clone(), c.password.clone(), c.http_url.host_str().unwrap_or("").into(), f.host().unwrap_or("").into()],
         vec![c.http_url.port_or_known_default().map(|p| p as u64), f.port_u16().or(if f.scheme_str() == Some("http") { Some(80) } else { None }).map(|p| p as u64)],
         c.timeout.map(|d| d.as_millis() as u64), c.precision.clone(), c.chunked)
    }
    pub fn parse(&mut self, text: &str) -> Result<(Request, bool, &'static str, String), String> {
        let r = CnosdbRequest::parse_db_request(text, &mut self.0).map_err(|e| e.to_string())?;
        let (p, b) = crate::db_request::verif_view(&r);
        let (k, t) = match b { RequestBody::Sql(s) => ("sql", s.clone()), RequestBody::LineProtocol(s) => ("lp", s.clone()), RequestBody::OpenTSDBProtocol(s) => ("tsdb", s.clone()), RequestBody::OpenTSDBJson(s) => ("json", s.clone()), RequestBody::Nothing => ("nothing", String::new()) };
        let http = matches!(p, Protocol::Http);
        Ok((Request(r), http, k, t))
    }
    /// the same settings, addressed to servers of ours
    pub fn with_ports(&self, port: u16, flight: u16) -> Client { let mut c = self.0.clone(); c.flight_endpoint = format!("http://127.0.0.1:{flight}").parse().unwrap(); c.http_url.set_host(Some("127.0.0.1")).unwrap(); c.http_url.set_port(Some(port)).unwrap(); Client(c) }
    pub fn point(&mut self, port: u16) { self.0.http_url.set_host(Some("127.0.0.1")).unwrap(); self.0.http_url.set_port(Some(port)).unwrap(); }
}
pub struct Request(CnosdbRequest);
impl Request {
    pub async fn execute(&self, c: &Client) -> Result<(String, Vec<Vec<String>>), String> {
        let (t, r) = self.0.execute(&c.0, Path::new("x")).await.map_err(|e| e.to_string())?;
        Ok((t.iter().map(|t| t.to_char()).collect(), r))
    }
}
pub use crate::instance::verif_rewrite as rewrite;
pub fn rows(b: Vec<RecordBatch>) -> Result<Vec<Vec<String>>, String> { crate::utils::normalize::convert_batches(b).map_err(|e| e.to_string()) }
pub fn types(f: &Fields) -> String { crate::utils::normalize::convert_schema_to_types(f).iter().map(|t| t.to_char()).collect() }
pub fn chars(s: &str) -> Vec<(Option<char>, bool)> { s.chars().map(|c| { let t = CnosdbColumnType::from_char(c); (t.as_ref().map(|t| t.to_char()), t.is_some()) }).collect() }
pub fn files(dir: &Path, filters: Vec<String>) -> Vec<(PathBuf, PathBuf)> { crate::test_files(dir, &Options::from_cli_options(cli(filters, 1, 1))).collect() }
