//! Two replicas A and B of the metadata state machine fed the same bytes.
use crate::types::*;
use crate::web::Pings;
use h_util::*;
use meta::store::command::*;
use meta::store::storage::StateMachine;
use models::auth::role::{CustomTenantRole, TenantRoleIdentifier};
use models::auth::user::UserDesc;
use models::meta_data::*;
use models::oid::Oid;
use models::schema::query_info::QueryInfo;
use models::schema::resource_info::ResourceInfo;
use models::schema::table_schema::TableSchema;
use models::schema::tenant::Tenant;
use replication::{ApplyContext, ApplyStorage};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use std::collections::HashMap;
use utils::precision::Precision;

fn open(dir: &str) -> StateMachine { StateMachine::open(dir, 64 << 20).expect("HARNESS open") }
fn rd<T: DeserializeOwned>(sm: &StateMachine, c: ReadCommand) -> T {
    #[derive(serde::Deserialize)]
    struct R<T> { #[serde(rename = "Ok")] ok: T }
    let v = sm.process_read_command(&c);
    serde_json::from_str::<R<T>>(&v).unwrap_or_else(|e| panic!("read {c:?}: {v} {e}")).ok
}
pub fn view(sm: &StateMachine, addr: &HashMap<String, String>) -> Value {
    let c = || C.to_string();
    let sym = |a: &str| addr.iter().find(|(_, v)| v.as_str() == a).map(|(k, _)| k.clone()).unwrap_or(a.to_string());
    let (nodes, ver): (Vec<NodeInfo>, u64) = rd(sm, ReadCommand::DataNodes(c()));
    let met: Vec<NodeMetrics> = rd(sm, ReadCommand::NodeMetrics(c()));
    let users: Vec<UserDesc> = rd(sm, ReadCommand::Users(c()));
    let mut users2 = vec![]; let mut ten0 = vec![]; let mut ten1 = vec![];
    for n in USERS { if let Some(u) = rd::<Option<UserDesc>>(sm, ReadCommand::User(c(), n.into())) { users2.push(user_view(&u)); } }
    for n in TENANTS {
        if let Some(t) = rd::<Option<Tenant>>(sm, ReadCommand::Tenant(c(), n.into(), false)) { ten0.push(ten_view(&t)); }
        if let Some(t) = rd::<Option<Tenant>>(sm, ReadCommand::Tenant(c(), n.into(), true)) { ten1.push(ten_view(&t)); }
    }
    let vis: Vec<Tenant> = rd(sm, ReadCommand::Tenants(c()));
    let (mut dbs, mut tabs, mut tabs2, mut bks, mut roles, mut roles2, mut mems, mut mems2, mut memn, mut rsets) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    for t in TENANTS {
        let m: TenantMetaData = rd(sm, ReadCommand::TenantMetaData(c(), t.into()));
        for (k, d) in &m.dbs {
            let p = *d.schema.config.precision();
            let x = db_view(t, &d.schema);
            assert_eq!(x["d"], json!(k), "key of a database");
            dbs.push(x);
            for (k, x) in &d.tables { let x = table_view(t, d.schema.database_name(), x); assert_eq!(x["n"], json!(k), "key of a table"); tabs.push(x); }
            for b in &d.buckets {
                bks.push(bucket_view(t, d.schema.database_name(), p, b));
                for g in &b.shard_group { if let Some(r) = rd::<Option<ReplicationSet>>(sm, ReadCommand::ReplicationSet(c(), t.into(), d.schema.database_name().into(), g.id)) { if r == *g { rsets.push(json!(g.id)); } } }
            }
        }
        for d in DBS { for n in TABS {
            let a: Option<TableSchema> = rd(sm, ReadCommand::TableSchema(c(), t.into(), d.into(), n.into()));
            if let Some(x) = &a { tabs2.push(table_view(t, d, x)); }
            let v: Value = serde_json::from_str(&sm.process_read_command(&ReadCommand::ReadTableSchema(c(), t.into(), d.into(), n.into()))).unwrap();
            assert_eq!(v.get("Ok").is_some(), a.is_some(), "ReadTableSchema {v}");
        } }
        for (k, r) in &m.roles { let x = role_view(t, r); assert_eq!(x["n"], json!(k), "key of a role"); roles.push(x); }
        for n in ROLES { if let Some(r) = rd::<Option<CustomTenantRole<Oid>>>(sm, ReadCommand::CustomRole(c(), n.into(), t.into())) { roles2.push(role_view(t, &r)); } }
        assert_eq!(rd::<Vec<CustomTenantRole<Oid>>>(sm, ReadCommand::CustomRoles(c(), t.into())).len(), m.roles.len(), "number of roles");
        for (k, r) in &m.members {
            let id: u64 = k.parse().unwrap();
            mems.push(json!({"t": t, "id": id, "role": role_s(r)}));
            if let Some(r) = rd::<Option<TenantRoleIdentifier>>(sm, ReadCommand::MemberRole(c(), t.into(), id as Oid)) { mems2.push(json!({"t": t, "id": id, "role": role_s(&r)})); }
        }
        for (n, r) in rd::<HashMap<String, TenantRoleIdentifier>>(sm, ReadCommand::Members(c(), t.into())) { memn.push(json!({"t": t, "n": n, "role": role_s(&r)})); }
    }
    let infos: Vec<ResourceInfo> = rd(sm, ReadCommand::ResourceInfos(c()));
    let mut infos2 = vec![]; let mut qs = vec![];
    for nid in 0..5u64 {
        for r in rd::<Vec<ResourceInfo>>(sm, ReadCommand::ResourceInfosByNodeid(c(), nid)) { infos2.push(res_view(&r)); }
        for q in rd::<Vec<QueryInfo>>(sm, ReadCommand::ReadQueryInfos(c(), nid)) { qs.push(json!({"id": q.query_id().get(), "node": nid, "own": q.node_id})); }
    }
    for r in &infos { assert!(rd::<Option<ResourceInfo>>(sm, ReadCommand::ResourceInfoByName(c(), r.get_name().into())).is_some(), "resource by name"); }
    let mark: (u64, bool) = rd(sm, ReadCommand::ResourceInfosMark(c()));
    json!({"ver": ver, "nodes": nodes.iter().map(|n| json!({"id": n.id, "addr": sym(&n.grpc_addr)})).collect::<Vec<_>>(),
        "met": met.iter().map(|m| json!({"id": m.id, "free": m.disk_free, "ok": m.is_healthy()})).collect::<Vec<_>>(),
        "users": users.iter().map(user_view).collect::<Vec<_>>(), "users2": users2, "ten0": ten0, "ten1": ten1, "vis": vis.iter().map(ten_view).collect::<Vec<_>>(),
        "dbs": dbs, "tabs": tabs, "tabs2": tabs2, "bks": bks, "rsets": rsets, "roles": roles, "roles2": roles2, "mems": mems, "mems2": mems2, "memn": memn,
        "infos": infos.iter().map(res_view).collect::<Vec<_>>(), "infos2": infos2, "qs": qs, "mark": {"nid": mark.0, "lock": mark.1}})
}
/// Everything stored, without the clocks of the rate limiters.
fn dump(sm: &StateMachine) -> Vec<(String, String)> {
    sm.backup().expect("HARNESS backup").map.into_iter().filter(|(k, _)| !k.ends_with("/limiter")).map(|(k, v)| { let v = serde_json::from_str::<Value>(&v).map(|x| x.to_string()).unwrap_or(v); (k, v) }).collect()
}
pub fn buckets(sm: &StateMachine, t: &str, d: &str) -> Vec<BucketInfo> {
    let m: TenantMetaData = rd(sm, ReadCommand::TenantMetaData(C.into(), t.into()));
    let mut v = m.dbs.get(d).map(|x| x.buckets.clone()).unwrap_or_default();
    v.sort_by_key(|b| b.id);
    v
}
pub fn prec_of(sm: &StateMachine, t: &str, d: &str) -> Precision {
    let m: TenantMetaData = rd(sm, ReadCommand::TenantMetaData(C.into(), t.into()));
    m.dbs.get(d).map(|x| *x.schema.config.precision()).unwrap_or(Precision::NS)
}
pub fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let pings = Pings::start();
    let root = std::env::temp_dir().join(format!("h_meta.{}", std::process::id()));
    let dir = |n: &str| root.join(n).to_str().unwrap().to_string();
    let mut st: Option<(StateMachine, StateMachine)> = None;
    let mut gen = 0u32;
    let (mut da, mut db) = (String::new(), String::new());
    drive(&["reset"], |op| rt.block_on(async {
        let mut add = serde_json::Map::new();
        match op["op"].as_str().unwrap() {
            "reset" => {
                st = None;
                let _ = std::fs::remove_dir_all(&root);
                gen += 1;
                (da, db) = (dir(&format!("a{gen}")), dir(&format!("b{gen}")));
                st = Some((open(&da), open(&db)));
            }
            "range" => {
                let (ts, d) = (unint(&op["ts"]) as i64, unint(&op["dur"]) as i64);
                let (lo, hi) = get_time_range(ts, d);
                return json!({"lo": int(lo as i128), "hi": int(hi as i128)});
            }
            "reopen" => { st = None; st = Some((open(&da), open(&db))); }
            "snap" => {
                let (a, b) = st.as_mut().unwrap();
                let (bytes, id) = a.create_snapshot(5).await.expect("create_snapshot");
                assert_eq!((id, a.get_snapshot().await.unwrap().map(|x| x.1)), (5, Some(5)), "id of a snapshot");
                if op["into"] == json!("fresh") { gen += 1; db = dir(&format!("b{gen}")); *b = open(&db); }
                b.restore(&bytes).await.expect("restore");
            }
            _ => {
                let (a, b) = st.as_mut().unwrap();
                let cmd = command(op, &|x| pings.addr(x), &|t, d| buckets(a, t, d), &|t, d| prec_of(a, t, d), &mut add);
                let req = serde_json::to_vec(&cmd).unwrap();
                let ctx = ApplyContext { index: 1, apply_type: 0, raft_id: 1 };
                let ra = a.apply(&ctx, &req.clone().into()).await.expect("apply");
                let rb = b.apply(&ctx, &req.into()).await.expect("apply");
                let (ra, rb) = (String::from_utf8(ra.to_vec()).unwrap(), String::from_utf8(rb.to_vec()).unwrap());
                let (va, data) = result(&ra);
                add.insert("res".into(), va.clone());
                add.insert("resb".into(), result(&rb).0);
                if op["op"] == json!("retain") { add.insert("rid".into(), data.clone()); }
                if data.get("dbs").is_some() {
                    let m: Value = serde_json::from_str(&a.process_read_command(&ReadCommand::TenantMetaData(C.into(), s(op, "t")))).unwrap();
                    let norm = |v: &Value| { let mut v = v.clone(); for (_, d) in v["dbs"].as_object_mut().unwrap() { let x = sorted(d["buckets"].as_array().unwrap().clone()); d["buckets"] = x; } v };
                    add.insert("data".into(), json!(norm(&m["Ok"]) == norm(&data)));
                } else { add.insert("data".into(), json!(true)); }
            }
        }
        let (a, b) = st.as_ref().unwrap();
        let (x, y) = (dump(a), dump(b));
        if x != y && std::env::var_os("VERIF_DIFF").is_some() { for (p, q) in x.iter().zip(y.iter()) { if p != q { eprintln!("DIFF {p:?} {q:?}"); } } }
        add.insert("same".into(), json!(x == y));
        add.insert("view".into(), view(a, &pings.map));
        Value::Object(add)
    }));
    drop(st);
    let _ = std::fs::remove_dir_all(&root);
}
