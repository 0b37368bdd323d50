//! Raft storage harness: `NodeStorage` over the write-ahead log (or the LMDB entry store), called as
//! the consensus library calls it.  Several groups share one state database.
use h_util::{b, s, u};
use crate::store;
use async_trait::async_trait;
use openraft::storage::{RaftLogReader, RaftSnapshotBuilder, RaftStorage, Snapshot};
use openraft::{Entry, EntryPayload, LeaderId, LogId, Membership, StoredMembership, Vote};
use prost::Message;
use protos::kv_service::RaftWriteCommand;
use replication::entry_store::HeedEntryStorage;
use replication::errors::ReplicationResult;
use replication::node_store::NodeStorage;
use replication::state_store::{RaftNodeSummary, StateStorage};
use replication::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::path::PathBuf;
use std::sync::Arc;
use tokio::sync::RwLock;
use tskv::vnode_store::VnodeStorage;
use tskv::wal::wal_store::RaftEntryStorage;
use tskv::wal::VnodeWal;

/// What the state machine of one group holds; it outlives a restart.
#[derive(Default)]
struct Machine { items: Vec<(u64, i64)>, snap: Option<(Vec<u8>, u64)>, lag: u64 }
struct Engine(Arc<RwLock<Machine>>);
fn tag_of(req: &[u8]) -> i64 {
    let Ok(c) = RaftWriteCommand::decode(req) else { return -1 };
    let n: i64 = match c.tenant.parse() { Ok(n) => n, Err(_) => return -1 };
    if c.db_name == pad(n as u64, c.db_name.len()) { n } else { -2 }
}
fn pad(tag: u64, n: usize) -> String { (0..n).map(|k| (b'a' + ((tag * 7 + k as u64 * (tag % 11 + 1)) % 26) as u8) as char).collect() }
#[async_trait]
impl ApplyStorage for Engine {
    async fn apply(&mut self, ctx: &ApplyContext, req: &Request) -> ReplicationResult<Response> {
        let t = tag_of(req);
        self.0.write().await.items.push((ctx.index, t));
        Ok(t.to_string().into_bytes())
    }
    async fn get_snapshot(&mut self) -> ReplicationResult<Option<(Vec<u8>, u64)>> { Ok(self.0.read().await.snap.clone()) }
    async fn create_snapshot(&mut self, applied: u64) -> ReplicationResult<(Vec<u8>, u64)> {
        let mut m = self.0.write().await;
        let floor = m.snap.as_ref().map_or(0, |x| x.1);
        let at = floor.max(applied.saturating_sub(m.lag));
        let items: Vec<_> = m.items.iter().filter(|x| x.0 <= at).cloned().collect();
        let d = (serde_json::to_vec(&items).unwrap(), at);
        m.snap = Some(d.clone());
        Ok(d)
    }
    async fn restore(&mut self, data: &[u8]) -> ReplicationResult<()> {
        let items: Vec<(u64, i64)> = serde_json::from_slice(data).expect("snapshot data");
        let mut m = self.0.write().await;
        m.items = items;
        Ok(())
    }
    async fn destory(&mut self) -> ReplicationResult<()> { let mut m = self.0.write().await; m.items.clear(); m.snap = None; Ok(()) }
    async fn metrics(&self) -> ReplicationResult<EngineMetrics> { Ok(EngineMetrics::default()) }
}

struct Case { dir: PathBuf, op: Value, state: Option<Arc<StateStorage>>, nodes: BTreeMap<u32, Arc<NodeStorage>>, machines: BTreeMap<u32, Arc<RwLock<Machine>>> }

fn log_id(t: u64, n: u64, i: u64) -> LogId<u64> { LogId::new(LeaderId::new(t, n), i) }
fn lj(l: &LogId<u64>) -> Value { json!([l.leader_id.term, l.leader_id.node_id, l.index]) }
fn oj(l: &Option<LogId<u64>>) -> Value { match l { Some(l) => json!([lj(l)]), None => json!([]) } }
fn members(g: u32, tag: u64) -> Membership<u64, RaftNodeInfo> {
    let ids: BTreeSet<u64> = (0..10).filter(|k| tag >> k & 1 == 1).collect();
    let nodes: BTreeMap<u64, RaftNodeInfo> = ids.iter().map(|k| (*k, RaftNodeInfo { group_id: g, address: format!("a{k}:{g}") })).collect();
    Membership::new(vec![ids], nodes)
}
fn member_tag(g: u32, m: &Membership<u64, RaftNodeInfo>) -> i64 {
    if m.voter_ids().next().is_none() && m.nodes().next().is_none() { return 0 }
    let t: u64 = m.voter_ids().map(|k| 1 << k).sum();
    if *m == members(g, t) { t as i64 } else { -1 }
}
fn ej(g: u32, e: &Entry<TypeConfig>) -> Value {
    let (k, t) = match &e.payload {
        EntryPayload::Blank => (0, 0),
        EntryPayload::Normal(d) => (1, tag_of(d)),
        EntryPayload::Membership(m) => (2, member_tag(g, m)),
    };
    json!([e.log_id.index, e.log_id.leader_id.term, e.log_id.leader_id.node_id, k, t])
}
fn mj(g: u32, m: &StoredMembership<u64, RaftNodeInfo>) -> Value {
    let t = member_tag(g, m.membership());
    json!({"at": oj(m.log_id()), "tag": t})
}
fn sj(g: u32, s: &Snapshot<TypeConfig>) -> Value {
    let d: Value = serde_json::from_slice(s.snapshot.get_ref()).unwrap_or(json!([]));
    json!({"at": oj(&s.meta.last_log_id), "mem": mj(g, &s.meta.last_membership), "id": s.meta.snapshot_id, "data": d})
}

impl Case {
    async fn open(&mut self, w: &store::World, vnode: &mut VnodeStorage) {
        let state = Arc::new(StateStorage::open(self.dir.join("state"), 1 << 30).expect("open state"));
        self.state = Some(state.clone());
        for g in self.op["groups"].as_array().unwrap().clone() { self.open_group(w, vnode, g.as_u64().unwrap() as u32).await }
    }
    async fn open_group(&mut self, w: &store::World, vnode: &mut VnodeStorage, g: u32) {
        let state = self.state.clone().unwrap();
        let entries: EntryStorageRef = if s(&self.op, "store") == "wal" {
            let mut c = w.cfg.clone();
            c.wal.path = self.dir.join("wal").to_string_lossy().into();
            c.wal.max_file_size = u(&self.op, "max");
            c.wal.compress = s(&self.op, "compress");
            let wal = VnodeWal::new(Arc::new(tskv::kv_option::WalOptions::from(&c)), Arc::new("cnosdb.rl".to_string()), g).await.expect("open wal");
            let mut logs = RaftEntryStorage::new(wal);
            let applied = state.get_last_applied_log(g).expect("applied");
            logs.recover(applied, vnode).await.expect("recover");
            Arc::new(RwLock::new(logs))
        } else {
            Arc::new(RwLock::new(HeedEntryStorage::open(self.dir.join(format!("ent{g}")), 1 << 30).expect("open entries")))
        };
        let m = self.machines.get(&g).unwrap().clone();
        let info = RaftNodeInfo { group_id: g, address: format!("x:{g}") };
        let n = NodeStorage::open(g as u64 * 10, info, state, Arc::new(RwLock::new(Engine(m))), entries).await.expect("open node");
        self.nodes.insert(g, Arc::new(n));
    }
    async fn span(&self, g: u32) -> Value {
        let m = self.nodes[&g].entries_metrics().await.expect("metrics");
        // an empty log has no first and last entry
        if m.min_seq == u64::MAX || m.max_seq == u64::MAX { return json!([]) }
        json!([m.min_seq, m.max_seq])
    }
}

fn bound(v: &Value) -> Bound<u64> {
    let x = v[1].as_u64().unwrap_or(0);
    match v[0].as_str().unwrap() { "in" => Bound::Included(x), "ex" => Bound::Excluded(x), _ => Bound::Unbounded }
}

pub fn run() {
    let w = store::world();
    let opts = store::options(&w, &w.root.join("rl"), &json!({}));
    let _rt = w.rt.enter();
    let (_engine, mut vnode) = w.rt.block_on(store::scratch_vnode(&w, opts, "rl"));
    let (mut case, mut n) = (None::<Case>, 0);
    h_util::drive(&["reset"], |op| {
        let name = s(op, "op");
        if name == "reset" {
            if let Some(c) = case.take() { let d = c.dir.clone(); drop(c); let _ = std::fs::remove_dir_all(d); }
            n += 1;
            let machines = op["groups"].as_array().unwrap().iter().map(|g| (g.as_u64().unwrap() as u32, Arc::new(RwLock::new(Machine { lag: u(op, "lag"), ..Default::default() })))).collect();
            let mut c = Case { dir: w.root.join(format!("rl{n}")), op: op.clone(), state: None, nodes: BTreeMap::new(), machines };
            w.rt.block_on(c.open(&w, &mut vnode));
            case = Some(c);
            return json!({});
        }
        let c = case.as_mut().expect("HARNESS no case");
        if name == "reopen" {
            c.nodes.clear();
            c.state = None;
            let r = w.rt.block_on(async {
                c.open(&w, &mut vnode).await;
                let mut o = vec![];
                for g in c.nodes.keys() { o.push(json!({"g": g, "span": c.span(*g).await})) }
                o
            });
            return json!({"spans": r});
        }
        let g = u(op, "g") as u32;
        let mut node = c.nodes[&g].clone();
        let state = c.state.clone().unwrap();
        w.rt.block_on(async {
            match name.as_str() {
                "append" => {
                    let from = u(op, "from");
                    let ents: Vec<Entry<TypeConfig>> = op["ents"].as_array().unwrap().iter().enumerate().map(|(k, e)| {
                        let x = |j: usize| e[j].as_u64().unwrap();
                        let payload = match x(2) {
                            0 => EntryPayload::Blank,
                            1 => EntryPayload::Normal(RaftWriteCommand { tenant: x(3).to_string(), db_name: pad(x(3), u(op, "size") as usize), replica_id: 0, command: None }.encode_to_vec()),
                            _ => EntryPayload::Membership(members(g, x(3))),
                        };
                        Entry { log_id: log_id(x(0), x(1), from + k as u64), payload }
                    }).collect();
                    node.append_to_log(ents).await.expect("append");
                    json!({"span": c.span(g).await})
                }
                "cut" => { node.delete_conflict_logs_since(log_id(1, 1, u(op, "i"))).await.expect("cut"); json!({"span": c.span(g).await}) }
                "purge" => {
                    let l = &op["at"];
                    let x = |j: usize| l[j].as_u64().unwrap();
                    node.purge_logs_upto(log_id(x(0), x(1), x(2))).await.expect("purge");
                    json!({"span": c.span(g).await})
                }
                "apply" => {
                    let (applied, _) = node.last_applied_state().await.expect("applied");
                    let from = applied.map_or(0, |l| l.index + 1);
                    let ents = node.try_get_log_entries(from..=u(op, "i")).await.expect("entries");
                    let r = node.apply_to_state_machine(&ents).await.expect("apply");
                    let r: Vec<i64> = r.iter().map(|x| if x.is_empty() { 0 } else { String::from_utf8_lossy(x).parse().unwrap_or(-9) }).collect();
                    json!({"res": r})
                }
                "get" => {
                    let mut rd = node.get_log_reader().await;
                    let e = rd.try_get_log_entries((bound(&op["lo"]), bound(&op["hi"]))).await.expect("entries");
                    json!({"ents": e.iter().map(|x| ej(g, x)).collect::<Vec<_>>()})
                }
                "state" => { let l = node.get_log_state().await.expect("state"); json!({"purged": oj(&l.last_purged_log_id), "last": oj(&l.last_log_id), "span": c.span(g).await}) }
                "vote" => {
                    let v = &op["v"];
                    node.save_vote(&Vote { leader_id: LeaderId::new(v[0].as_u64().unwrap(), v[1].as_u64().unwrap()), committed: v[2].as_u64().unwrap() == 1 }).await.expect("vote");
                    json!({})
                }
                "voted" => { let v = node.read_vote().await.expect("vote"); json!({"v": v.iter().map(|v| json!([v.leader_id.term, v.leader_id.node_id, v.committed as u8])).collect::<Vec<_>>()}) }
                "applied" => {
                    let (l, m) = node.last_applied_state().await.expect("applied");
                    json!({"at": oj(&l), "mem": mj(g, &m), "items": c.machines[&g].read().await.items})
                }
                "build" => { let mut bl = node.get_snapshot_builder().await; let sn = bl.build_snapshot().await.expect("build"); sj(g, &sn) }
                "current" => { let sn = node.get_current_snapshot().await.expect("current"); json!({"snap": sn.iter().map(|x| sj(g, x)).collect::<Vec<_>>()}) }
                "install" => {
                    // the other group's snapshot arrives here
                    let mut src = c.nodes[&(u(op, "src") as u32)].clone();
                    let Some(sn) = src.get_current_snapshot().await.expect("current") else { return json!({"none": 1}) };
                    let mut to = node.begin_receiving_snapshot().await.expect("receive");
                    *to.get_mut() = sn.snapshot.get_ref().clone();
                    let r = sj(u(op, "src") as u32, &sn);
                    // members are named per group; the stand-in keeps them comparable
                    let mut meta = sn.meta.clone();
                    let t = member_tag(u(op, "src") as u32, meta.last_membership.membership());
                    meta.last_membership = StoredMembership::new(*meta.last_membership.log_id(), if t < 0 { Membership::new(vec![], ()) } else { members(g, t as u64) });
                    // the receiver keeps nothing older than what it was given
                    { let mut m = c.machines[&g].write().await; m.snap = Some((vec![], meta.last_log_id.map_or(0, |l| l.index))); }
                    node.install_snapshot(&meta, to).await.expect("install");
                    json!({"none": 0, "snap": r})
                }
                "init" => { state.set_init_flag(g).expect("init"); json!({}) }
                "isinit" => json!({"yes": state.is_already_init(g).expect("isinit") as u8}),
                "name" => {
                    state.set_node_summary(g, &RaftNodeSummary { tenant: s(op, "tenant"), db_name: format!("db{g}"), group_id: g, raft_id: u(op, "raft") }).expect("name");
                    json!({})
                }
                "names" => {
                    let one = state.get_node_summary(g).expect("name");
                    let mut all: Vec<_> = state.all_nodes_summary().expect("names");
                    all.sort_by_key(|x| x.group_id);
                    let f = |x: &RaftNodeSummary| json!([x.group_id, x.raft_id, x.tenant, (x.db_name == format!("db{}", x.group_id)) as u8]);
                    json!({"one": one.iter().map(f).collect::<Vec<_>>(), "all": all.iter().map(f).collect::<Vec<_>>()})
                }
                "destroy" => {
                    node.destory().await.expect("destroy");
                    c.nodes.remove(&g);
                    drop(node);
                    let left = if s(&c.op, "store") == "wal" { c.dir.join("wal/cnosdb.rl").join(g.to_string()).exists() } else { c.dir.join(format!("ent{g}")).exists() };
                    if b(op, "again") { c.open_group(&w, &mut vnode, g).await }
                    json!({"left": left as u8})
                }
                o => panic!("HARNESS op {o}"),
            }
        })
    });
}
