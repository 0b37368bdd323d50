//! Scripted ops to real commands, real replies to plain views.
use h_util::*;
use meta::limiter::local_request_limiter::{ExpectedRequest, LocalBucketRequest};
use meta::limiter::limiter_kind::RequestLimiterKind;
use meta::store::command::*;
use models::auth::privilege::DatabasePrivilege;
use models::auth::role::{CustomTenantRole, SystemTenantRole, TenantRoleIdentifier};
use models::auth::user::{User, UserDesc, UserOptions, UserOptionsBuilder};
use models::meta_data::*;
use models::node_info::NodeStatus;
use models::oid::{Identifier, Oid};
use models::schema::database_schema::*;
use models::schema::query_info::{QueryId, QueryInfo};
use models::schema::resource_info::*;
use models::schema::table_schema::TableSchema;
use models::schema::tenant::{Tenant, TenantOptions};
use models::schema::tskv_table_schema::{TableColumn, TskvTableSchema};
use config::common::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use utils::duration::CnosDuration;
use utils::precision::Precision;

pub const C: &str = "c";
pub const TENANTS: [&str; 3] = ["t1", "t1x", "租"];
pub const USERS: [&str; 3] = ["u", "u2", "ü"];
pub const DBS: [&str; 2] = ["d", "d1"];
pub const TABS: [&str; 2] = ["m", "m2"];
pub const ROLES: [&str; 2] = ["r", "r2"];

pub fn strs(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
pub fn hour(p: Precision) -> i64 { match p { Precision::MS => 3_600_000, Precision::US => 3_600_000_000, Precision::NS => 3_600_000_000_000 } }
pub fn prec(s: &str) -> Precision { match s { "ms" => Precision::MS, "us" => Precision::US, _ => Precision::NS } }
pub fn prec_s(p: Precision) -> &'static str { match p { Precision::MS => "ms", Precision::US => "us", Precision::NS => "ns" } }
fn dur(h: i64) -> CnosDuration { if h == 0 { CnosDuration::new_inf() } else { CnosDuration::new_with_duration(std::time::Duration::from_secs(3600 * h as u64)) } }
fn dur_h(d: &CnosDuration) -> i64 { if *d == CnosDuration::new_inf() { 0 } else { let n = d.to_nanoseconds(); assert!(n % 3_600_000_000_000 == 0, "duration {n}"); n / 3_600_000_000_000 } }
pub fn role_id(r: &str) -> TenantRoleIdentifier { match r { "s:owner" => TenantRoleIdentifier::System(SystemTenantRole::Owner), "s:member" => TenantRoleIdentifier::System(SystemTenantRole::Member), c => TenantRoleIdentifier::Custom(c[2..].to_string()) } }
pub fn role_s(r: &TenantRoleIdentifier) -> String { match r { TenantRoleIdentifier::System(x) => format!("s:{}", x.name()), TenantRoleIdentifier::Custom(x) => format!("c:{x}") } }
pub fn priv_(p: &str) -> DatabasePrivilege { match p { "r" => DatabasePrivilege::Read, "w" => DatabasePrivilege::Write, _ => DatabasePrivilege::Full } }
pub fn priv_s(p: &DatabasePrivilege) -> &'static str { match p { DatabasePrivilege::Read => "r", DatabasePrivilege::Write => "w", DatabasePrivilege::Full => "a" } }
pub fn sys_(x: &str) -> Option<SystemTenantRole> { match x { "owner" => Some(SystemTenantRole::Owner), "member" => Some(SystemTenantRole::Member), _ => None } }
pub fn privs(v: &Value) -> Vec<(DatabasePrivilege, String)> { v.as_array().unwrap().iter().map(|x| (priv_(x[1].as_str().unwrap()), x[0].as_str().unwrap().to_string())).collect() }
pub fn user_opts(op: &Value) -> UserOptions {
    let mut o = UserOptionsBuilder::default();
    if op["c"] != json!("-") { o.comment(s(op, "c")); }
    match op["adm"].as_str().unwrap() { "y" => { o.granted_admin(true); } "n" => { o.granted_admin(false); } _ => {} }
    o.build().unwrap()
}
pub fn user_view(d: &UserDesc) -> Value {
    json!({"n": d.name(), "id": *d.id() as u64, "c": d.options().comment().unwrap_or("-"), "adm": match d.options().granted_admin() { None => "-", Some(true) => "y", Some(false) => "n" }})
}
pub fn ten_opts(op: &Value) -> TenantOptions {
    let lim = i(op, "lim");
    let bk = Bucket { remote_bucket: RateBucketConfig { max: Some(1000), initial: lim.max(0) as usize, refill: 1, interval: 1 << 40 }, local_bucket: CountBucketConfig { max: Some(10), initial: 0 } };
    TenantOptions {
        comment: if op["c"] == json!("-") { None } else { Some(s(op, "c")) },
        limiter_config: if lim < 0 { None } else { Some(TenantLimiterConfig { object_config: None, request_config: Some(RequestLimiterConfig { coord_data_in: None, coord_data_out: None, coord_queries: None, coord_writes: None, http_data_in: None, http_data_out: None, http_queries: None, http_writes: Some(bk) }) }) },
        drop_after: None,
        tenant_is_hidden: false,
    }
}
pub fn ten_view(t: &Tenant) -> Value {
    json!({"n": t.name(), "id": *t.id() as u64, "c": t.options().comment.clone().unwrap_or("-".into()), "h": t.options().get_tenant_is_hidden(),
        "lim": t.options().request_config().and_then(|c| c.http_writes).map(|b| b.remote_bucket.initial as i64).unwrap_or(-1)})
}
pub fn db_schema(op: &Value) -> DatabaseSchema {
    let o = DatabaseOptions::new(dur(i(op, "ttl")), u(op, "s"), dur(i(op, "dur")), u(op, "r"));
    let c = DatabaseConfig::new(prec(&s(op, "prec")), 1, 1, 1, false, true, 1);
    DatabaseSchema::new(&s(op, "t"), &s(op, "d"), o, Arc::new(c))
}
pub fn db_view(t: &str, d: &DatabaseSchema) -> Value {
    assert_eq!(t, d.tenant_name(), "tenant of a database schema");
    json!({"t": t, "d": d.database_name(), "s": d.options.shard_num(), "r": d.options.replica(), "dur": dur_h(d.options.vnode_duration()), "ttl": dur_h(d.options.ttl()), "prec": prec_s(*d.config.precision()), "h": d.is_hidden()})
}
pub fn table(op: &Value) -> TableSchema {
    let n = i(op, "cols");
    let mut cols = vec![TableColumn::new_time_column(0, arrow::datatypes::TimeUnit::Nanosecond)];
    for k in 1..=n { cols.push(TableColumn::new_tag_column(k as u32, format!("k{k}"))); }
    let mut t = TskvTableSchema::new(s(op, "t"), s(op, "d"), s(op, "n"), cols);
    t.schema_version = u(op, "ver");
    TableSchema::TsKvTableSchema(Arc::new(t))
}
pub fn table_view(t: &str, d: &str, x: &TableSchema) -> Value {
    match x {
        TableSchema::TsKvTableSchema(x) => { assert_eq!((t, d), (x.tenant.as_str(), x.db.as_str()), "owner of a table"); json!({"t": t, "d": d, "n": x.name, "ver": x.schema_version, "cols": x.columns().len() as i64 - 1}) }
        _ => panic!("table kind"),
    }
}
pub fn hours(x: i64, p: Precision) -> Value {
    if x <= -i64::MAX { return json!(-2000000); }
    if x == i64::MAX { return json!(2000000); }
    let h = hour(p);
    assert!(x % h == 0, "time {x} not on the hour");
    json!(x / h)
}
pub fn status(s: &str) -> VnodeStatus { match s { "Copying" => VnodeStatus::Copying, "Broken" => VnodeStatus::Broken, _ => VnodeStatus::Running } }
pub fn bucket_view(t: &str, d: &str, p: Precision, b: &BucketInfo) -> Value {
    json!({"t": t, "d": d, "id": b.id, "lo": hours(b.start_time, p), "hi": hours(b.end_time, p),
        "sets": b.shard_group.iter().map(|g| json!({"id": g.id, "ln": g.leader_node_id, "lv": g.leader_vnode_id,
            "vn": g.vnodes.iter().map(|v| json!({"id": v.id, "node": v.node_id, "st": format!("{:?}", v.status)})).collect::<Vec<_>>()})).collect::<Vec<_>>()})
}
pub fn role_view(t: &str, r: &CustomTenantRole<Oid>) -> Value {
    json!({"t": t, "n": r.name(), "sys": r.inherit_role().as_ref().map(|x| x.name()).unwrap_or("-"), "pr": sorted(r.additional_privileges().iter().map(|(d, p)| json!([d, priv_s(p)])).collect())})
}
pub fn sorted(mut v: Vec<Value>) -> Value { v.sort_by_key(|x| x.to_string()); Value::Array(v) }
pub fn res_info(n: &str, nid: u64, st: &str) -> ResourceInfo {
    let mut r = ResourceInfo::new((1, "d".into()), n.into(), ResourceOperator::DropTenant("t".into()), &None, nid);
    r.set_status(match st { "Schedule" => ResourceStatus::Schedule, "Failed" => ResourceStatus::Failed, "Successed" => ResourceStatus::Successed, _ => ResourceStatus::Executing });
    r
}
pub fn res_view(r: &ResourceInfo) -> Value { json!({"n": r.get_name(), "nid": r.get_execute_node_id(), "st": r.get_status().to_string()}) }
pub fn a_user() -> User { User::new(UserDesc::new(7, "q".into(), UserOptions::default(), false), Default::default(), None) }

/// The buckets of a database, oldest id first, as seen by the state machine.
pub fn pick(bks: &[BucketInfo], op: &Value) -> (u32, u32, Vec<VnodeInfo>) {
    if bks.is_empty() { return (999, 999, vec![]); }
    let b = &bks[u(op, "b") as usize % bks.len()];
    if b.shard_group.is_empty() { return (b.id, 999, vec![]); }
    let g = &b.shard_group[u(op, "g") as usize % b.shard_group.len()];
    (b.id, g.id, g.vnodes.clone())
}

pub fn lim_req(op: &Value) -> LocalBucketRequest { LocalBucketRequest { kind: RequestLimiterKind::HttpWrites, expected: ExpectedRequest { min: 1, max: i(op, "max") } } }

/// The command of an op.  `addr` maps symbolic addresses, `bks` lists the buckets of (t, d).
/// Fields the op leaves to the present state are put into `add`.
pub fn command(op: &Value, addr: &dyn Fn(&str) -> String, bks: &dyn Fn(&str, &str) -> Vec<BucketInfo>, prec_of: &dyn Fn(&str, &str) -> Precision, add: &mut serde_json::Map<String, Value>) -> WriteCommand {
    let c = C.to_string();
    let t = || s(op, "t"); let d = || s(op, "d"); let n = || s(op, "n");
    match op["op"].as_str().unwrap() {
        "addnode" => WriteCommand::AddDataNode(c, NodeInfo { id: u(op, "id"), grpc_addr: addr(&s(op, "addr")) }),
        "metrics" => WriteCommand::ReportNodeMetrics(c, NodeMetrics { id: u(op, "id"), disk_free: u(op, "free"), time: 1, status: match op["st"].as_str().unwrap() { "ok" => NodeStatus::Healthy, "broken" => NodeStatus::Broken, "nospace" => NodeStatus::NoDiskSpace, _ => NodeStatus::Cordon } }),
        "createdb" => WriteCommand::CreateDB(c, t(), db_schema(op)),
        "alterdb" => WriteCommand::AlterDB(c, t(), { let mut x = op.clone(); x["prec"] = json!(prec_s(prec_of(&t(), &d()))); db_schema(&x) }),
        "hidedb" => WriteCommand::SetDBIsHidden(c, t(), d(), b(op, "h")),
        "dropdb" => WriteCommand::DropDB(c, t(), d()),
        "mktab" => WriteCommand::CreateTable(c, t(), table(op)),
        "uptab" => WriteCommand::UpdateTable(c, t(), table(op)),
        "droptab" => WriteCommand::DropTable(c, t(), d(), n()),
        "mkbk" => WriteCommand::CreateBucket(c, t(), d(), i(op, "ts") * hour(prec_of(&t(), &d()))),
        "delbk" => { let (id, _, _) = pick(&bks(&t(), &d()), op); add.insert("id".into(), json!(id)); WriteCommand::DeleteBucket(c, t(), d(), id) }
        "mkuser" => WriteCommand::CreateUser(c, UserDesc::new(u(op, "id") as Oid, n(), user_opts(op), false)),
        "altuser" => WriteCommand::AlterUser(c, n(), user_opts(op)),
        "dropuser" => WriteCommand::DropUser(c, n()),
        "renuser" => WriteCommand::RenameUser(c, n(), "z".into()),
        "mkten" => WriteCommand::CreateTenant(c, Tenant::new(u(op, "id") as Oid, n(), ten_opts(op))),
        "altten" => WriteCommand::AlterTenant(c, n(), ten_opts(op)),
        "hideten" => WriteCommand::SetTenantIsHidden(c, n(), b(op, "h")),
        "renten" => WriteCommand::RenameTenant(c, n(), "z".into()),
        "dropten" => WriteCommand::DropTenant(c, n()),
        "addmem" => WriteCommand::AddMemberToTenant(c, u(op, "id") as Oid, role_id(&s(op, "role")), t()),
        "rmmem" => WriteCommand::RemoveMemberFromTenant(c, u(op, "id") as Oid, t()),
        "chmem" => WriteCommand::ReasignMemberRole(c, u(op, "id") as Oid, role_id(&s(op, "role")), t()),
        "mkrole" => WriteCommand::CreateRole(c, n(), sys_(&s(op, "sys")), privs(&op["pr"]).into_iter().map(|(p, d)| (d, p)).collect::<HashMap<_, _>>(), t()),
        "droprole" => WriteCommand::DropRole(c, n(), t()),
        "grant" => WriteCommand::GrantPrivileges(c, privs(&op["pr"]), n(), t()),
        "revoke" => WriteCommand::RevokePrivileges(c, privs(&op["pr"]), n(), t()),
        "retain" => WriteCommand::RetainID(c, u(op, "n") as u32),
        "upset" => {
            let (bid, rs, vn) = pick(&bks(&t(), &d()), op);
            let del: Vec<VnodeInfo> = op["del"].as_array().unwrap().iter().filter(|_| !vn.is_empty()).map(|k| vn[k.as_u64().unwrap() as usize % vn.len()].clone()).collect();
            let new: Vec<VnodeInfo> = op["add"].as_array().unwrap().iter().map(|p| VnodeInfo::new(p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap())).collect();
            add.insert("bid".into(), json!(bid)); add.insert("rs".into(), json!(rs));
            add.insert("dv".into(), json!(del.iter().map(|v| v.id).collect::<Vec<_>>()));
            WriteCommand::UpdateVnodeReplSet(UpdateVnodeReplSetArgs { cluster: c, tenant: t(), db_name: d(), bucket_id: bid, repl_id: rs, del_info: del, add_info: new })
        }
        "leader" => {
            let (bid, rs, vn) = pick(&bks(&t(), &d()), op);
            let v = vn.get(u(op, "k") as usize % vn.len().max(1)).cloned().unwrap_or(VnodeInfo::new(998, 1));
            add.insert("bid".into(), json!(bid)); add.insert("rs".into(), json!(rs)); add.insert("v".into(), json!(v.id)); add.insert("node".into(), json!(v.node_id));
            WriteCommand::ChangeReplSetLeader(ChangeReplSetLeaderArgs { cluster: c, tenant: t(), db_name: d(), bucket_id: bid, repl_id: rs, leader_node_id: v.node_id, leader_vnode_id: v.id })
        }
        "vnode" => {
            let (bid, rs, vn) = pick(&bks(&t(), &d()), op);
            let v = vn.get(u(op, "k") as usize % vn.len().max(1)).cloned().unwrap_or(VnodeInfo::new(998, 1));
            add.insert("bid".into(), json!(bid)); add.insert("rs".into(), json!(rs)); add.insert("v".into(), json!(v.id));
            WriteCommand::UpdateVnode(UpdateVnodeArgs { cluster: c, vnode_info: VnodeAllInfo { vnode_id: v.id, node_id: v.node_id, repl_set_id: rs, bucket_id: bid, db_name: d(), tenant: t(), status: status(&s(op, "st")), start_time: 0, end_time: 0 } })
        }
        "res" => WriteCommand::ResourceInfo(c, n(), res_info(&n(), u(op, "nid"), &s(op, "st"))),
        "mark" => WriteCommand::ResourceInfosMark(c, u(op, "nid"), b(op, "lock")),
        "q" => WriteCommand::WriteQueryInfo(c, u(op, "id"), QueryInfo::new(QueryId::from(u(op, "id")), "select 1".into(), 1, "t1".into(), "d".into(), a_user(), u(op, "node"))),
        "rmq" => WriteCommand::RemoveQueryInfo(c, u(op, "id")),
        "mvq" => WriteCommand::MoveQueryInfo(c, u(op, "a"), u(op, "z")),
        "lim" => WriteCommand::LimiterRequest { cluster: c, tenant: t(), request: lim_req(op) },
        o => panic!("HARNESS op {o}"),
    }
}
/// {"Ok": v} / {"Err": {"Variant": ..}} as ["ok", scalar] / ["err", variant]
pub fn result(r: &str) -> (Value, Value) {
    let v: Value = serde_json::from_str(r).expect("reply is JSON");
    if let Some(x) = v.get("Ok") {
        let sc = match x { Value::Bool(b) => b.to_string(), Value::Number(n) => n.to_string(), Value::Object(o) if o.contains_key("alloc") => format!("{}/{}", o["alloc"], o["remote_remain"]), _ => String::new() };
        return (json!(["ok", sc]), x.clone());
    }
    let e = &v["Err"];
    let n = e.as_str().map(|x| x.to_string()).or_else(|| e.as_object().and_then(|o| o.keys().next().cloned())).unwrap_or_else(|| v.to_string());
    (json!(["err", n]), Value::Null)
}
