use crate::data::{self, cell, strs, Row, NULL};
use crate::meta_srv;
use datafusion::prelude::{col, lit, Expr};
use datafusion::common::ScalarValue;
use futures::StreamExt;
use h_util::{b, i, opt, s, u};
use memory_pool::GreedyMemoryPool;
use meta::model::meta_admin::AdminMeta;
use meta::model::{MetaClientRef, MetaRef};
use metrics::metric_register::MetricsRegister;
use models::meta_data::ReplicationSet;
use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
use models::predicate::utils::filter_to_time_ranges;
use models::predicate::domain::{ColumnDomains, TimeRanges, Predicate, PushedAggregateFunction};
use models::predicate::PlacedSplit;
use models::schema::database_schema::{DatabaseConfigBuilder, DatabaseOptionsBuilder, DatabaseSchema};
use models::schema::tenant::TenantOptions;
use models::schema::tskv_table_schema::{ColumnType, TskvTableSchema, TskvTableSchemaRef};
use models::schema::table_schema::TableSchema;
use models::tag::Tag;
use models::SeriesKey;
use openraft::{EntryPayload, LogId};
use prost::Message;
use protos::kv_service::{raft_write_command::Command, *};
use replication::EntryStorage;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tokio::runtime::Runtime;
use tskv::reader::table_scan::LocalTskvTableScanStream;
use tskv::reader::QueryOption;
use tskv::vnode_store::VnodeStorage;
use tskv::wal::wal_store::{RaftEntry, RaftEntryStorage};
use tskv::wal::VnodeWal;
use tskv::{kv_option, Engine, EngineRef, TsKv};

const TENANT: &str = "cnosdb";
const VNODE: u32 = 7;

pub struct World { pub rt: Runtime, pub eng_rt: Arc<Runtime>, pub meta: MetaRef, pub cfg: config::tskv::Config, pub root: PathBuf }

struct Case {
    dir: PathBuf, db: String, engine: Arc<TsKv>, vnode: VnodeStorage, wal: RaftEntryStorage,
    idx: u64, tsmap: Vec<i64>, opts: kv_option::Options, client: MetaClientRef, gen: u32, pending: bool,
    snap: Option<(tskv::VnodeSnapshot, PathBuf, u64)>, cfg: Value,
}

fn filter_cols(e: &Value, out: &mut Vec<String>) {
    if let Some(c) = e["c"].as_str() { out.push(c.into()) }
    for k in ["l", "r"] { if e[k].is_object() { filter_cols(&e[k], out) } }
}

fn err_kind(e: &dyn std::fmt::Debug) -> String { format!("{e:?}").chars().take(160).collect() }

fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).expect("HARNESS mkdir");
    for e in std::fs::read_dir(a).expect("HARNESS readdir") {
        let e = e.expect("HARNESS entry");
        let (p, q) = (e.path(), b.join(e.file_name()));
        if p.is_dir() { copy_dir(&p, &q) } else { let _ = std::fs::copy(&p, &q); }
    }
}

pub fn options(w: &World, dir: &Path, cfg: &Value) -> kv_option::Options {
    let mut c = w.cfg.clone();
    c.storage.path = dir.join("data").to_string_lossy().into();
    // compactions run when the schedule says so, none in the background
    c.storage.max_concurrent_compaction = 0;
    c.wal.path = dir.join("wal").to_string_lossy().into();
    if let Some(x) = cfg["wal_max"].as_u64() { c.wal.max_file_size = x }
    if let Some(x) = cfg["trigger"].as_u64() { c.storage.compact_trigger_file_num = x as u32 }
    if let Some(x) = cfg["base"].as_u64() { c.storage.base_file_size = x }
    if let Some(x) = cfg["block"].as_u64() { c.storage.max_datablock_size = x }
    if let Some(x) = cfg["wal_compress"].as_str() { c.wal.compress = x.into() }
    kv_option::Options::from(&c)
}

async fn open(w: &World, opts: kv_option::Options, db: &str) -> (Arc<TsKv>, VnodeStorage, RaftEntryStorage) {
    let e = TsKv::open(w.meta.clone(), opts.clone(), w.eng_rt.clone(), Arc::new(GreedyMemoryPool::new(1 << 32)), Arc::new(MetricsRegister::default())).await.expect("open engine");
    let v = e.open_tsfamily(TENANT, db, VNODE).await.expect("open vnode");
    let wal = VnodeWal::new(opts.wal.clone(), Arc::new(models::schema::database_schema::make_owner(TENANT, db)), VNODE).await.expect("open wal");
    (Arc::new(e), v, RaftEntryStorage::new(wal))
}

impl Case {
    async fn new(w: &World, n: u64, op: &Value) -> Case {
        let db = format!("d{n}");
        let dir = w.root.join(format!("c{n}-0"));
        let cfg = op["cfg"].clone();
        let mut dc = DatabaseConfigBuilder::new();
        if let Some(x) = cfg["mem"].as_u64() { dc.with_max_memcache_size(x); }
        if let Some(x) = cfg["parts"].as_u64() { dc.with_memcache_partitions(x); }
        let dopt = DatabaseOptionsBuilder::new().build();
        let client = w.meta.tenant_meta(TENANT).await.expect("HARNESS tenant");
        client.create_db(DatabaseSchema::new(TENANT, &db, dopt, Arc::new(dc.build(w.cfg.clone())))).await.expect("create db");
        client.sync_all_tenant_metadata().await.expect("sync");
        let opts = options(w, &dir, &cfg);
        let (engine, vnode, wal) = open(w, opts.clone(), &db).await;
        let tsmap = strs(&op["ts"]).iter().map(|x| x.parse().expect("HARNESS ts")).collect();
        Case { dir, db, engine, vnode, wal, idx: 0, tsmap, opts, client, gen: 0, pending: false, snap: None, cfg }
    }

    fn schema(&self, tb: &str) -> Option<TskvTableSchemaRef> { self.client.get_tskv_table_schema(&self.db, tb).expect("schema") }

    /// Background flushes started by the last command come to an end.
    async fn layout(&self) -> Vec<FileAt> {
        let v = self.vnode.get_ts_family().read().await.version();
        let mut o = vec![];
        for l in v.levels_info().iter() {
            for f in l.files.iter() {
                let n = match v.get_tsm_reader(f.file_path()).await {
                    Ok(r) => r.tombstone().get_all_fields_excluded_time_range(&models::predicate::domain::TimeRange::all()).iter().map(|t| (t.min_ts, t.max_ts)).collect::<Vec<_>>(),
                    Err(_) => vec![],
                };
                let h = n.iter().fold(n.len(), |a, t| a.wrapping_mul(31).wrapping_add(t.0 as usize).wrapping_mul(31).wrapping_add(t.1 as usize));
                o.push((l.level, f.file_id(), *f.time_range(), h));
            }
        }
        o
    }

    async fn settle(&self) {
        for k in 0..400 {
            if self.vnode.get_ts_family().read().await.im_cache().is_empty() { return }
            if k == 0 { tokio::task::yield_now().await } else { tokio::time::sleep(std::time::Duration::from_millis(5)).await }
        }
    }

    /// Append to the raft log and, unless told otherwise, apply.
    async fn log(&mut self, cmd: Command, apply: bool) -> Value {
        self.idx += 1;
        let req = RaftWriteCommand { tenant: TENANT.into(), db_name: self.db.clone(), replica_id: 1, command: Some(cmd.clone()) };
        let mut ent = RaftEntry::default();
        ent.log_id.index = self.idx;
        ent.payload = EntryPayload::Normal(req.encode_to_vec());
        self.wal.append(&[ent]).await.expect("wal append");
        self.pending = !apply;
        if !apply { return json!({"res": "logged"}) }
        let ctx = replication::ApplyContext { index: self.idx, raft_id: VNODE as u64, apply_type: replication::APPLY_TYPE_WRITE };
        let r = self.vnode.apply(&ctx, cmd).await;
        self.settle().await;
        match r { Ok(_) => json!({"res": "ok"}), Err(e) => json!({"res": "err", "err": err_kind(&e)}) }
    }

    fn write_cmd(&self, op: &Value) -> Command {
        let mut groups: Vec<(String, Vec<Row>)> = vec![];
        for r in op["rows"].as_array().expect("HARNESS rows") {
            let tb = s(r, "tb");
            let tags = strs(&r["tags"]).into_iter().enumerate().map(|(k, v)| (format!("g{}", k + 1), v)).collect();
            let fields = strs(&r["f"]).into_iter().enumerate().map(|(k, v)| (format!("f{}", k + 1), v)).collect();
            let row = Row { tags, ts: self.tsmap[u(r, "t") as usize - 1], fields };
            match groups.iter_mut().find(|g| g.0 == tb) { Some(g) => g.1.push(row), None => groups.push((tb, vec![row])) }
        }
        Command::WriteData(WriteDataRequest { data: data::points(&self.db, &groups), precision: utils::precision::Precision::NS as u32 })
    }

    fn tsval(&self, v: &Value) -> i64 { self.tsmap[v.as_u64().expect("HARNESS ts index") as usize - 1] }

    /// {"k":"cmp","c":"g1"|"time"|"f1","o":"=","v":...} | and | or | not | null | in
    /// DataFusion's optimizer leaves NOT only on boolean columns; so does this (neg: under a NOT).
    fn expr(&self, e: &Value) -> Expr { self.nnf(e, false) }
    fn nnf(&self, e: &Value, neg: bool) -> Expr {
        let val = |c: &str, v: &Value| -> Expr {
            if c == "time" { return Expr::Literal(ScalarValue::TimestampNanosecond(Some(self.tsval(v)), None)) }
            let t = v.as_str().expect("HARNESS lit");
            if t == NULL { return Expr::Literal(ScalarValue::Utf8(None)) }
            match &t[..2] {
                "i:" => lit(t[2..].parse::<i64>().unwrap()), "u:" => lit(t[2..].parse::<u64>().unwrap()), "f:" => lit(t[2..].parse::<f64>().unwrap()),
                "b:" => lit(&t[2..] == "true"), _ => lit(t[2..].to_string()),
            }
        };
        match e["k"].as_str().expect("HARNESS k") {
            "and" | "or" => {
                let (l, r) = (self.nnf(&e["l"], neg), self.nnf(&e["r"], neg));
                if (e["k"] == "and") != neg { l.and(r) } else { l.or(r) }
            }
            "not" => self.nnf(&e["l"], !neg),
            "const" => lit(e["v"].as_bool().expect("HARNESS const") != neg),
            "null" => { let c = Box::new(col(e["c"].as_str().unwrap())); if neg { Expr::IsNotNull(c) } else { Expr::IsNull(c) } }
            "cmp" => {
                let c = s(e, "c");
                let (l, r) = (col(c.as_str()), val(&c, &e["v"]));
                let o = e["o"].as_str().unwrap();
                let o = if !neg { o } else { match o { "=" => "!=", "!=" => "=", "<" => ">=", "<=" => ">", ">" => "<=", _ => "<" } };
                match o { "=" => l.eq(r), "!=" => l.not_eq(r), "<" => l.lt(r), "<=" => l.lt_eq(r), ">" => l.gt(r), _ => l.gt_eq(r) }
            }
            "in" => { let c = s(e, "c"); datafusion::prelude::in_list(col(c.as_str()), e["v"].as_array().unwrap().iter().map(|v| val(&c, v)).collect(), e["neg"].as_bool().unwrap_or(false) != neg) }
            k => panic!("HARNESS expr {k}"),
        }
    }

    fn predicate(&self, e: &Value, sch: &TskvTableSchemaRef) -> models::predicate::domain::ResolvedPredicateRef {
        let f = if e.is_null() { None } else { Some(self.expr(e)) };
        Predicate::push_down_filter(f, &sch.to_df_schema().unwrap(), &sch.to_arrow_schema(), None).expect("push_down").resolve(sch).expect("resolve")
    }

    /// A statement naming a column the table does not have fails when it is planned.
    fn unknown_col(&self, sch: &TskvTableSchema, f: &Value) -> bool {
        let mut v = vec![];
        filter_cols(f, &mut v);
        v.iter().any(|c| sch.column(c).is_none())
    }

    async fn scan(&self, w: &World, op: &Value) -> Value {
        let tb = s(op, "tb");
        let Some(sch) = self.schema(&tb) else { return json!({"res": "notable", "rows": [], "n": 0}) };
        if self.unknown_col(&sch, &op["filter"]) { return json!({"res": "nocol", "rows": [], "n": 0}) }
        let pred = self.predicate(&op["filter"], &sch);
        let mut cols = sch.columns().to_vec();
        if let Some(p) = op["proj"].as_array() {
            // the plan keeps the columns of filters the table may not apply exactly
            let mut p: Vec<String> = p.iter().map(|x| x.as_str().unwrap().to_string()).collect();
            filter_cols(&op["filter"], &mut p);
            cols.retain(|c| matches!(c.column_type, ColumnType::Time(_)) || p.contains(&c.name));
        }
        let proj = Arc::new(TskvTableSchema::new(sch.tenant.clone(), sch.db.clone(), sch.name.clone(), cols));
        let count = op["count"].as_bool().unwrap_or(false);
        let split = PlacedSplit::new(0, pred, op["limit"].as_u64().map(|x| x as usize), ReplicationSet::default());
        let batch = op["batch"].as_u64().unwrap_or(1024) as usize;
        let (agg, sc) = if count {
            let f = arrow::datatypes::Field::new("count", arrow::datatypes::DataType::Int64, false);
            (Some(vec![PushedAggregateFunction::Count("time".into())]), Arc::new(arrow::datatypes::Schema::new(vec![f])))
        } else { (None, proj.to_arrow_schema()) };
        let opt = QueryOption::new(batch, split, agg, sc, proj.clone(), sch.meta());
        let mut st = LocalTskvTableScanStream::new(VNODE, opt, self.engine.clone() as EngineRef, w.eng_rt.clone(), trace::Span::default());
        let mut rows = vec![];
        while let Some(x) = st.next().await {
            let rb = match x { Ok(rb) => rb, Err(e) => return json!({"res": "err", "err": err_kind(&e), "rows": [], "n": 0}) };
            if count {
                let a = rb.column(0).as_any().downcast_ref::<arrow::array::Int64Array>().expect("count type");
                return json!({"res": "ok", "rows": [], "n": a.value(0)});
            }
            let idx = |n: &str| rb.schema().index_of(n).ok();
            for r in 0..rb.num_rows() {
                let get = |n: String| match idx(&n) { Some(k) => cell(rb.column(k), r), None => "none".to_string() };
                let g = |n: &str| { let c = get(n.to_string()); if let Some(x) = c.strip_prefix("s:") { x.to_string() } else { c } };
                let t: i64 = get("time".into()).parse().unwrap_or(i64::MIN + 12345);
                let ti = self.tsmap.iter().position(|x| *x == t).map(|x| x as i64 + 1).unwrap_or(-1);
                rows.push(json!({"tags": [g("g1"), g("g2")], "t": ti, "f": (1..=5).map(|k| get(format!("f{k}"))).collect::<Vec<_>>()}));
            }
        }
        let n = rows.len();
        json!({"res": "ok", "rows": rows, "n": n})
    }

    fn series_key(&self, tb: &str, tags: &Value, sch: &TskvTableSchema) -> SeriesKey {
        let mut tv: Vec<Tag> = strs(tags).into_iter().enumerate().filter(|x| x.1 != NULL).filter_map(|(k, v)| sch.column(&format!("g{}", k + 1)).map(|c| Tag::new_with_column_id(c.id, v.into_bytes()))).collect();
        models::tag::sort_tags(&mut tv);
        SeriesKey { tags: tv, table: tb.into() }
    }

    /// The engine dies; what is on disk is all a new one gets.
    async fn crash(&mut self, w: &World, op: &Value) -> Value {
        // only an entry that was never applied can still be dropped by the leader
        let lose = if self.pending { u(op, "lose") } else { 0 };
        self.pending = false;
        let applied = self.idx - lose;
        if let Some(x) = op["sync_index"].as_bool() { if x { self.vnode.sync_index().await } }
        self.gen += 1;
        let nd = w.root.join(format!("{}-{}", self.dir.file_name().unwrap().to_string_lossy().split('-').next().unwrap(), self.gen));
        if op["clean"].as_bool().unwrap_or(false) { self.engine.close().await; }
        copy_dir(&self.dir, &nd);
        if let Some(cut) = op["torn"].as_u64() {
            // bytes of a record the dying process was in the middle of writing
            let wd = nd.join("wal").join(models::schema::database_schema::make_owner(TENANT, &self.db));
            tear(&wd, cut as usize);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
        self.dir = nd;
        self.opts = options(w, &self.dir, &self.cfg);
        let (e, v, wal) = open(w, self.opts.clone(), &self.db).await;
        self.engine = e; self.vnode = v; self.wal = wal;
        let flushed = self.vnode.metrics().await.flushed_apply_id;
        let mut id = LogId::<u64>::default();
        id.index = applied;
        let r = self.wal.recover(Some(id), &mut self.vnode).await;
        self.idx = applied;
        self.settle().await;
        // replaying writes may have added tables and columns
        self.client.sync_all_tenant_metadata().await.expect("sync");
        json!({"res": match r { Ok(_) => "ok".into(), Err(e) => err_kind(&e) }, "lose": lose, "flushed": flushed, "applied": applied})
    }
}

/// (level, id, time range, parts moved elsewhere by compactions)
type FileAt = (u32, u64, models::predicate::domain::TimeRange, usize);

/// Did the compaction leave an older file in front of a newer one?  Readers take a lower
/// level over a higher one, and the later file within a level.
fn inverted(before: &[FileAt], after: &[FileAt]) -> bool {
    let taken: Vec<&FileAt> = before.iter().filter(|f| !after.iter().any(|g| g.0 == f.0 && g.1 == f.1 && g.3 == f.3)).collect();
    let made: Vec<&FileAt> = after.iter().filter(|g| !before.iter().any(|f| f.1 == g.1)).collect();
    // an older file of level 0 stays where it was
    let l0 = taken.iter().filter(|t| t.0 == 0).any(|t| after.iter().any(|r| r.0 == 0 && r.1 < t.1 && r.2.overlaps(&t.2)));
    // the outcome went below files of a lower level that were not taken
    let below = made.iter().any(|m| after.iter().any(|r| r.0 > 0 && r.0 < m.0 && r.2.overlaps(&m.2) && before.iter().any(|b| b.0 == r.0 && b.1 == r.1)));
    l0 || below
}

fn tear(dir: &Path, cut: usize) {
    let mut files = vec![];
    fn walk(d: &Path, o: &mut Vec<PathBuf>) { if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { walk(&p, o) } else { o.push(p) } } } }
    walk(dir, &mut files);
    files.retain(|p| p.extension().map(|x| x == "wal").unwrap_or(false));
    files.sort();
    let p = files.last().expect("HARNESS no wal");
    let d = std::fs::read(p).expect("HARNESS");
    let n = d.len();
    // the frame a record starts with, and part of what should follow
    let mut extra = d[..n.min(64.max(cut))].to_vec();
    extra = extra.split_off(extra.len().min(8));
    extra.truncate(cut);
    let mut f = d.clone(); f.extend_from_slice(&extra);
    std::fs::write(p, f).expect("HARNESS");
}

pub fn world() -> World {
    let root = PathBuf::from(std::env::var("VERIF_SCRATCH").expect("HARNESS scratch"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let eng_rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap());
    std::mem::forget(eng_rt.clone());
        let (addr, _sm) = rt.block_on(meta_srv::start(root.join("meta").to_str().unwrap()));
        let mut cfg = config::tskv::Config::default();
        cfg.meta.service_addr = vec![addr];
        cfg.global.cluster_name = "c1".into();
        let meta = rt.block_on(async {
            let m = AdminMeta::new(cfg.clone(), Arc::new(MetricsRegister::default())).await;
            m.add_data_node().await.expect("HARNESS add node");
            let _ = m.create_tenant(TENANT.to_string(), TenantOptions::default()).await;
            m
        });
        World { rt, eng_rt, meta, cfg, root }
}

/// An open vnode of its own, for logs that are recovered next to it.
pub async fn scratch_vnode(w: &World, opts: kv_option::Options, db: &str) -> (Arc<TsKv>, VnodeStorage) {
    let client = w.meta.tenant_meta(TENANT).await.expect("HARNESS tenant");
    client.create_db(DatabaseSchema::new(TENANT, db, DatabaseOptionsBuilder::new().build(), Arc::new(DatabaseConfigBuilder::new().build(w.cfg.clone())))).await.expect("create db");
    client.sync_all_tenant_metadata().await.expect("sync");
    let (e, v, _) = open(w, opts, db).await;
    (e, v)
}

pub fn run() {
    let w = world();
    let (mut case, mut n) = (None::<Case>, 0u64);
    h_util::drive(&["new"], |op| {
        let name = s(op, "op");
        // files marked for removal spawn a task when the last reference goes
        let _rt = w.rt.enter();
        if name == "new" {
            if let Some(c) = case.take() {
                w.rt.block_on(async { let _ = tokio::time::timeout(std::time::Duration::from_secs(20), c.engine.close()).await; });
                let _ = std::fs::remove_dir_all(&c.dir);
            }
            n += 1;
            case = Some(w.rt.block_on(Case::new(&w, n, op)));
            return json!({});
        }
        let c = case.as_mut().expect("HARNESS no case");
        let apply = op["apply"].as_bool().unwrap_or(true);
        w.rt.block_on(async {
            match name.as_str() {
                "write" => { let cmd = c.write_cmd(op); let r = c.log(cmd, apply).await; c.client.sync_all_tenant_metadata().await.expect("sync"); r }
                "delete" => {
                    let tb = s(op, "tb");
                    let Some(sch) = c.schema(&tb) else { return json!({"res": "notable"}) };
                    if c.unknown_col(&sch, &op["filter"]) { return json!({"res": "nocol"}) }
                    // as delete_from_table.rs of the query server does
                    let (tags, times) = if op["filter"].is_null() { (ColumnDomains::all(), TimeRanges::all()) } else {
                        match DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(&c.expr(&op["filter"])) {
                            Ok((tag, time)) => (tag, TimeRanges::new(filter_to_time_ranges(&time))),
                            Err(e) => return json!({"res": "unsupported", "err": err_kind(&e)}),
                        }
                    };
                    let p = models::predicate::domain::ResolvedPredicate::new(Arc::new(times), tags, None).unwrap();
                    let cmd = Command::DeleteFromTable(DeleteFromTableRequest { tenant: TENANT.into(), database: c.db.clone(), table: tb, predicate: bincode::serialize(&p).unwrap(), vnode_id: VNODE });
                    c.log(cmd, apply).await
                }
                "updtags" => {
                    let tb = s(op, "tb");
                    let Some(sch) = c.schema(&tb) else { return json!({"res": "notable"}) };
                    let ids = c.engine.get_series_id_by_filter(TENANT, &c.db, &tb, VNODE, &ColumnDomains::all()).await.expect("series ids");
                    let live = c.engine.get_series_key(TENANT, &c.db, &tb, VNODE, &ids).await.expect("series keys");
                    // the statement's condition is evaluated on the series there are
                    let ms: Vec<Vec<u8>> = op["series"].as_array().expect("HARNESS series").iter()
                        .filter(|x| strs(x).iter().enumerate().all(|(k, v)| v == NULL || sch.column(&format!("g{}", k + 1)).is_some()))
                        .map(|x| c.series_key(&tb, x, &sch)).filter(|k| live.contains(k)).map(|k| k.encode()).collect();
                    let mut nt = vec![];
                    for (k, v) in strs(&op["set"]).into_iter().enumerate() {
                        if v == "=" { continue }
                        let Some(col) = sch.column(&format!("g{}", k + 1)) else { return json!({"res": "nocol"}) };
                        nt.push(UpdateSetValue { key: format!("{}", col.id).into_bytes(), value: if v == NULL { None } else { Some(v.into_bytes()) } });
                    }
                    let mut req = UpdateTagsRequest { db: c.db.clone(), new_tags: nt, matched_series: ms, dry_run: true };
                    let ctx = replication::ApplyContext { index: 0, raft_id: VNODE as u64, apply_type: replication::APPLY_TYPE_WRITE };
                    if let Err(e) = c.vnode.apply(&ctx, Command::UpdateTags(req.clone())).await { return json!({"res": "conflict", "err": err_kind(&e)}) }
                    req.dry_run = false;
                    c.log(Command::UpdateTags(req), apply).await
                }
                "dropcol" => {
                    let (tb, cn) = (s(op, "tb"), s(op, "col"));
                    let Some(sch) = c.schema(&tb) else { return json!({"res": "notable"}) };
                    if sch.column(&cn).is_none() { return json!({"res": "nocol"}) }
                    let r = c.log(Command::DropColumn(DropColumnRequest { db: c.db.clone(), table: tb, column: cn.clone() }), apply).await;
                    let mut ns = sch.as_ref().clone();
                    ns.drop_column(&cn); ns.schema_version += 1;
                    c.client.update_table(&TableSchema::TsKvTableSchema(Arc::new(ns))).await.expect("update table");
                    c.client.sync_all_tenant_metadata().await.expect("sync");
                    r
                }
                "droptable" => {
                    let tb = s(op, "tb");
                    if c.schema(&tb).is_none() { return json!({"res": "notable"}) }
                    let r = c.log(Command::DropTable(DropTableRequest { db: c.db.clone(), table: tb.clone() }), apply).await;
                    c.client.drop_table(&c.db, &tb).await.expect("drop table");
                    c.client.sync_all_tenant_metadata().await.expect("sync");
                    r
                }
                "flush" => { match c.vnode.flush(true, true, op["compact"].as_bool().unwrap_or(false)).await { Ok(_) => json!({"res": "ok"}), Err(e) => json!({"res": "err", "err": err_kind(&e)}) } }
                "compact" => {
                    // the compaction flushes first, so do that before looking
                    let _ = c.vnode.flush(true, true, false).await;
                    let before = c.layout().await;
                    let r = c.engine.compact(vec![VNODE]).await;
                    let inv = inverted(&before, &c.layout().await);
                    match r { Ok(_) => json!({"res": "ok", "inv": inv}), Err(e) => json!({"res": "err", "err": err_kind(&e)}) }
                }
                "purge" => { let f = c.vnode.metrics().await.flushed_apply_id; let r = c.wal.del_before(f + 1).await; json!({"res": if r.is_ok() { "ok" } else { "err" }, "at": f}) }
                "query" => c.scan(&w, op).await,
                "crash" => c.crash(&w, op).await,
                "snap" => {
                    let _ = c.vnode.flush(true, true, false).await;
                    let sn = c.vnode.create_snapshot().await.expect("create snapshot");
                    let d = w.root.join(format!("{}-snap", c.db));
                    let _ = std::fs::remove_dir_all(&d);
                    // what download does: fetch the files the version lists
                    let _ = std::fs::create_dir_all(&d);
                    let vd = c.opts.storage.ts_family_dir(&models::schema::database_schema::make_owner(TENANT, &c.db), VNODE);
                    for f in sn.version_edit.add_files.iter() {
                        let tomb = tskv::file_utils::make_tsm_tombstone_file(f.relative_path().parent().unwrap(), f.file_id);
                        for p in [f.relative_path(), tomb] {
                            std::fs::create_dir_all(d.join(p.parent().unwrap())).expect("HARNESS mkdir");
                            let _ = std::fs::copy(vd.join(&p), d.join(&p));
                        }
                    }
                    c.snap = Some((sn, d, c.idx));
                    json!({"res": "ok"})
                }
                "restore" => {
                    let Some((sn, d, at)) = c.snap.clone() else { return json!({"res": "nosnap"}) };
                    // what the log holds beyond the snapshot goes away with the data
                    let keep = w.root.join(format!("{}-keep", c.db));
                    let _ = std::fs::remove_dir_all(&keep);
                    copy_dir(&d, &keep);
                    c.wal.del_after(at + 1).await.expect("del_after");
                    c.idx = at;
                    match c.vnode.apply_snapshot(sn, &keep).await { Ok(_) => json!({"res": "ok"}), Err(e) => json!({"res": "err", "err": err_kind(&e)}) }
                }
                "series" => {
                    let tb = s(op, "tb");
                    let Some(sch) = c.schema(&tb) else { return json!({"res": "notable", "keys": []}) };
                    let p = c.predicate(&op["filter"], &sch);
                    let ids = c.engine.get_series_id_by_filter(TENANT, &c.db, &tb, VNODE, p.tags_filter()).await.expect("series ids");
                    let keys = c.engine.get_series_key(TENANT, &c.db, &tb, VNODE, &ids).await.expect("series keys");
                    let ks: Vec<Value> = keys.iter().map(|k| {
                        let mut v: Vec<String> = (1..=2).map(|g| sch.column(&format!("g{g}")).and_then(|cc| k.tag_val(&format!("{}", cc.id))).map(|v| String::from_utf8_lossy(&v).to_string()).unwrap_or(NULL.into())).collect();
                        // of a table that was dropped before; without rows, or a query would show them
                        for t in k.tags() { if !(1..=2).any(|g| sch.column(&format!("g{g}")).is_some_and(|cc| t.key == format!("{}", cc.id).into_bytes())) { v.push(format!("{:?}", t)) } }
                        json!(v)
                    }).collect();
                    json!({"res": "ok", "n": ids.len(), "keys": ks})
                }
                o => panic!("HARNESS op {o}"),
            }
        })
    });
    let _ = (opt::<u8>(None), b as fn(&Value, &str) -> bool, i as fn(&Value, &str) -> i64);
    std::process::exit(0);
}
