//! The real clients of two nodes against the real state machine behind HTTP, with replies held back on demand.
use crate::srv::{buckets, prec_of};
use crate::types::*;
use crate::web::Pings;
use config::tskv::Config;
use h_util::*;
use meta::error::MetaError;
use meta::model::meta_admin::AdminMeta;
use meta::store::command::*;
use meta::store::storage::{response_encode, StateMachine};
use metrics::metric_register::MetricsRegister;
use models::auth::privilege::*;
use models::auth::user::User;
use models::oid::{Identifier, Oid};
use replication::{ApplyContext, ApplyStorage};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

type Sm = Arc<tokio::sync::RwLock<Option<StateMachine>>>;
#[derive(Default)]
struct Gate { gated: bool, permits: u32, seq: u64, req: Option<(HashSet<String>, u64)>, held: HashSet<String>, waiting: u32, dead: bool }
type G = Arc<Mutex<Gate>>;
async fn nap() { tokio::time::sleep(Duration::from_millis(1)).await }

async fn serve(mut c: TcpStream, sm: Sm, g: G, addr: String) {
    let _ = c.set_nodelay(true);
    let mut buf: Vec<u8> = vec![];
    loop {
        let head = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p; }
            let mut t = [0u8; 8192];
            match c.read(&mut t).await { Ok(n) if n > 0 => buf.extend_from_slice(&t[..n]), _ => return }
        };
        let hdr = String::from_utf8_lossy(&buf[..head]).to_string();
        let path = hdr.split(' ').nth(1).unwrap_or("").to_string();
        let len: usize = hdr.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|v| v.trim().parse().unwrap())).unwrap_or(0);
        while buf.len() < head + 4 + len {
            let mut t = [0u8; 8192];
            match c.read(&mut t).await { Ok(n) if n > 0 => buf.extend_from_slice(&t[..n]), _ => return }
        }
        let body: Vec<u8> = buf[head + 4..head + 4 + len].to_vec();
        buf.drain(..head + 4 + len);
        let resp = match path.as_str() {
            "/read" => {
                let cmd: ReadCommand = serde_json::from_slice(&body).expect("HARNESS read");
                let kind = format!("{cmd:?}").split('(').next().unwrap().to_string();
                let r = sm.read().await.as_ref().map(|s| s.process_read_command(&cmd));
                let Some(r) = r else { return };
                if g.lock().unwrap().held.contains(&kind) {
                    g.lock().unwrap().waiting += 1;
                    while g.lock().unwrap().held.contains(&kind) && !g.lock().unwrap().dead { nap().await }
                    g.lock().unwrap().waiting -= 1;
                }
                r
            }
            "/write" => {
                let cmd: WriteCommand = serde_json::from_slice(&body).expect("HARNESS write");
                let ctx = ApplyContext { index: 1, apply_type: 0, raft_id: 1 };
                let mut w = sm.write().await;
                let Some(s) = w.as_mut() else { return };
                String::from_utf8(s.apply(&ctx, &serde_json::to_vec(&cmd).unwrap().into()).await.expect("apply").to_vec()).unwrap()
            }
            "/watch_meta_membership" => response_encode(Ok(vec![addr.clone()])),
            _ => {
                let (_, cluster, tenants, base): (String, String, HashSet<String>, u64) = serde_json::from_slice(&body).expect("HARNESS watch");
                let me = { let mut x = g.lock().unwrap(); x.seq += 1; x.req = Some((tenants.clone(), base)); x.seq };
                loop {
                    let (dead, open) = { let x = g.lock().unwrap(); (x.dead || x.seq != me, !x.gated || x.permits > 0) };
                    if dead { return }
                    if open {
                        let d = sm.read().await.as_ref().map(|s| s.read_change_logs(&cluster, &tenants, base));
                        if let Some(d) = d {
                            if d.need_return(base) {
                                let mut x = g.lock().unwrap();
                                x.permits = x.permits.saturating_sub(1);
                                x.req = None;
                                break response_encode(Ok(d));
                            }
                        }
                    }
                    nap().await;
                }
            }
        };
        let out = format!("HTTP/1.1 200 OK\r\ncontent-length: {}\r\ncontent-type: application/json\r\n\r\n{}", resp.len(), resp);
        if c.write_all(out.as_bytes()).await.is_err() { return }
    }
}
struct Cli { g: G, admin: Arc<AdminMeta>, used: BTreeSet<String>, bg: Vec<tokio::task::JoinHandle<()>> }
async fn client(n: u64, sm: &Sm) -> Cli {
    let l = TcpListener::bind("127.0.0.1:0").await.expect("HARNESS bind");
    let addr = format!("127.0.0.1:{}", l.local_addr().unwrap().port());
    let g: G = Default::default();
    let (a, s, h) = (addr.clone(), sm.clone(), g.clone());
    let srv = tokio::spawn(async move { loop { if let Ok((c, _)) = l.accept().await { tokio::spawn(serve(c, s.clone(), h.clone(), a.clone())); } } });
    let mut cfg = Config::default();
    cfg.global.cluster_name = C.into();
    cfg.global.node_id = n;
    cfg.meta.service_addr = vec![addr];
    let admin = AdminMeta::new(cfg, Arc::new(MetricsRegister::default())).await;
    Cli { g, admin, used: Default::default(), bg: vec![srv] }
}
fn probes(t: Oid) -> Vec<(String, Privilege<Oid>)> {
    let ob = |p| Privilege::TenantObject(p, Some(t));
    let mut v = vec![("root".into(), Privilege::Global(GlobalPrivilege::System)), ("ten".into(), Privilege::Global(GlobalPrivilege::Tenant(Some(t)))), ("sys".into(), ob(TenantObjectPrivilege::System)), ("mem".into(), ob(TenantObjectPrivilege::MemberFull)), ("role".into(), ob(TenantObjectPrivilege::RoleFull))];
    for d in DBS { for p in ["r", "w", "a"] { v.push((format!("{d}/{p}"), ob(TenantObjectPrivilege::Database(priv_(p), Some(d.into()))))); } }
    v
}
pub fn can(u: &User, t: Oid) -> Value { json!(probes(t).into_iter().filter(|(_, p)| u.check_privilege(p)).map(|x| x.0).collect::<Vec<_>>()) }
async fn data(c: &Cli, t: &str) -> Value {
    let Some(m) = c.admin.tenant_meta(t).await else { return json!({"t": t, "on": false, "h": false, "c": "", "id": 0, "dbs": [], "tabs": [], "bks": [], "who": []}) };
    let (mut dbs, mut tabs, mut bks, mut who) = (vec![], vec![], vec![], vec![]);
    for (k, d) in m.list_databases().unwrap() {
        assert_eq!(m.get_db_schema(&k).unwrap().map(|x| db_view(t, &x)), Some(db_view(t, &d.schema)), "schema of a database");
        dbs.push(db_view(t, &d.schema));
        for n in m.list_tables(&k).unwrap() { tabs.push(table_view(t, &k, &m.get_table_schema(&k, &n).unwrap().expect("a listed table"))); }
        for b in &d.buckets {
            let p = *d.schema.config.precision();
            let found = m.mapping_bucket(&k, b.start_time, b.start_time).unwrap();
            assert!(found.iter().any(|x| x.id == b.id), "bucket of its first time");
            for r in &b.shard_group {
                assert_eq!(m.get_replica_all_info(r.id).map(|x| (x.bucket_id, x.db_name, x.start_time, x.end_time)), Some((b.id, k.clone(), b.start_time, b.end_time)), "replica info");
                for v in &r.vnodes { assert_eq!(m.get_vnode_all_info(v.id).map(|x| (x.repl_set_id, x.bucket_id, x.node_id)), Some((r.id, b.id, v.node_id)), "vnode info"); }
            }
            bks.push(bucket_view(t, &k, p, b));
        }
    }
    for u in USERS {
        who.push(match c.admin.user_with_privileges(u, t).await {
            Ok(x) => json!({"n": u, "st": "ok", "role": x.role().map(role_s).unwrap_or("-".into()), "can": can(&x, *m.tenant().id())}),
            Err(MetaError::UserNotFound { .. }) => json!({"n": u, "st": "nouser", "role": "-", "can": []}),
            Err(MetaError::MemberNotFound { .. }) => json!({"n": u, "st": "nomem", "role": "-", "can": []}),
            Err(e) => json!({"n": u, "st": format!("{e:?}"), "role": "-", "can": []}),
        });
    }
    let v = ten_view(m.tenant());
    json!({"t": t, "on": true, "h": v["h"], "c": v["c"], "id": v["id"], "dbs": dbs, "tabs": tabs, "bks": bks, "who": who})
}
async fn cview(c: &Cli, addr: &HashMap<String, String>) -> Value {
    let sym = |a: &str| addr.iter().find(|(_, v)| v.as_str() == a).map(|(k, _)| k.clone()).unwrap_or(a.to_string());
    let nodes: Vec<Value> = c.admin.data_nodes().await.iter().map(|n| json!({"id": n.id, "addr": sym(&n.grpc_addr)})).collect();
    let mut ten = vec![];
    for t in &c.used { ten.push(data(c, t).await); }
    json!({"nodes": nodes, "ten": ten})
}
/// The client waits for news, the server has none, and nothing is under way.
async fn settle(c: &Cli, sm: &Sm) -> bool {
    let end = Instant::now() + Duration::from_secs(20);
    let mut good = 0;
    while Instant::now() < end {
        let mut cached = vec![];
        for t in &c.used { if let Some(m) = c.admin.tenant_meta(t).await { cached.push(m.tenant().name().to_string()); } }
        let (req, busy) = { let g = c.g.lock().unwrap(); (g.req.clone(), g.waiting > 0) };
        let quiet = match req { Some((t, b)) => cached.iter().all(|x| t.contains(x)) && !sm.read().await.as_ref().unwrap().read_change_logs(C, &t, b).need_return(b), None => false };
        if quiet && !busy { good += 1 } else { good = 0 }
        if good >= 3 { return true }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    false
}
fn ename(e: &MetaError) -> String { format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string() }
fn ok<T>(r: Result<T, MetaError>, f: impl Fn(T) -> String) -> Value { match r { Ok(x) => json!(["ok", f(x)]), Err(e) => json!(["err", ename(&e)]) } }
/// An op through a client's own API.
async fn via(c: &Cli, op: &Value, cmd: &WriteCommand) -> Value {
    let e = |_: ()| String::new();
    let t = op["t"].as_str().unwrap_or("");
    let (d, n) = (op["d"].as_str().unwrap_or(""), op["n"].as_str().unwrap_or(""));
    match cmd {
        WriteCommand::AlterUser(_, n, o) => return ok(c.admin.alter_user(n, o.clone()).await, e),
        WriteCommand::DropUser(_, n) => return ok(c.admin.drop_user(n).await, |b| b.to_string()),
        WriteCommand::RetainID(_, n) => return ok(c.admin.retain_id(*n).await, |_| String::new()),
        WriteCommand::SetTenantIsHidden(_, n, h) => return ok(c.admin.set_tenant_is_hidden(n, *h).await, e),
        _ => {}
    }
    let Some(m) = c.admin.tenant_meta(t).await else { return json!(["err", "NoTenant"]) };
    match cmd {
        WriteCommand::CreateDB(_, _, s) => ok(m.create_db(s.clone()).await, e),
        WriteCommand::AlterDB(_, _, s) => ok(m.alter_db_schema(s.clone()).await, e),
        WriteCommand::SetDBIsHidden(_, _, d, h) => ok(m.set_db_is_hidden(t, d, *h).await, e),
        WriteCommand::DropDB(..) => { let had = m.get_db_schema(d).unwrap().is_some(); ok(m.drop_db(d).await, |x| { assert_eq!(x, had, "drop_db tells whether it was there"); String::new() }) }
        WriteCommand::CreateTable(_, _, s) => ok(m.create_table(s).await, e),
        WriteCommand::UpdateTable(_, _, s) => ok(m.update_table(s).await, e),
        WriteCommand::DropTable(..) => ok(m.drop_table(d, n).await, e),
        WriteCommand::CreateBucket(_, _, d, ts) => ok(m.create_bucket(d, *ts).await, |b| { assert!(b.start_time <= *ts && *ts < b.end_time, "bucket of the time asked for"); String::new() }),
        WriteCommand::DeleteBucket(_, _, d, id) => ok(m.delete_bucket(d, *id).await, e),
        WriteCommand::AddMemberToTenant(_, u, r, _) => ok(m.add_member_with_role(*u, r.clone()).await, e),
        WriteCommand::RemoveMemberFromTenant(_, u, _) => ok(m.remove_member(*u).await, e),
        WriteCommand::ReasignMemberRole(_, u, r, _) => ok(m.reassign_member_role(*u, r.clone()).await, e),
        WriteCommand::CreateRole(_, n, s, p, _) => ok(m.create_custom_role(n.clone(), s.clone(), p.clone()).await, e),
        WriteCommand::DropRole(_, n, _) => match m.drop_custom_role(n).await { Ok(true) => json!(["ok", "true"]), Ok(false) => json!(["err", "RoleNotFound"]), Err(x) => json!(["err", ename(&x)]) },
        WriteCommand::GrantPrivileges(_, p, n, _) => ok(m.grant_privilege_to_custom_role(p.clone(), n).await, e),
        WriteCommand::RevokePrivileges(_, p, n, _) => ok(m.revoke_privilege_from_custom_role(p.clone(), n).await, e),
        WriteCommand::UpdateVnodeReplSet(a) => ok(m.update_replication_set(&a.db_name, a.bucket_id, a.repl_id, &a.del_info, &a.add_info).await, e),
        WriteCommand::UpdateVnode(a) => ok(m.update_vnode(&a.vnode_info).await, e),
        x => panic!("HARNESS via {x:?}"),
    }
}
pub fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let pings = Pings::start();
    let root = std::env::temp_dir().join(format!("h_metac.{}", std::process::id()));
    let dir = |n: &str| root.join(n).to_str().unwrap().to_string();
    let mut cl: Vec<Cli> = vec![];
    let mut sm: Sm = Default::default();
    let mut shadow: Option<StateMachine> = None;
    let mut crt: Option<tokio::runtime::Runtime> = None;
    let mut gen = 0u32;
    let mut path = String::new();
    drive(&["reset"], |op| rt.block_on(async {
        let mut add = serde_json::Map::new();
        let ctx = ApplyContext { index: 1, apply_type: 0, raft_id: 1 };
        let at = |k: &str| op[k].as_u64().map(|n| n as usize);
        match op["op"].as_str().unwrap() {
            "reset" => {
                for c in cl.drain(..) { c.g.lock().unwrap().dead = true; for b in c.bg { b.abort(); } }
                // with its runtime, whatever the clients left running ends
                if let Some(r) = crt.take() { r.shutdown_background(); }
                crt = Some(tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap());
                *sm.write().await = None;
                shadow = None;
                let _ = std::fs::remove_dir_all(&root);
                gen += 1;
                path = dir(&format!("m{gen}"));
                sm = Arc::new(tokio::sync::RwLock::new(Some(StateMachine::open(&path, 64 << 20).expect("HARNESS open"))));
                shadow = Some(StateMachine::open(dir(&format!("l{gen}")), 64 << 20).expect("HARNESS open"));
                for n in 1..=2 { let s = sm.clone(); cl.push(crt.as_ref().unwrap().spawn(async move { client(n, &s).await }).await.expect("HARNESS client")); }
                return json!({});
            }
            "use" => { let c = &mut cl[at("c").unwrap() - 1]; let t = s(op, "t"); let on = c.admin.tenant_meta(&t).await.is_some(); c.used.insert(t); add.insert("on".into(), json!(on)); }
            "gate" => { let mut g = cl[at("c").unwrap() - 1].g.lock().unwrap(); g.gated = true; g.permits = 0; }
            "hold" => { cl[at("c").unwrap() - 1].g.lock().unwrap().held.insert(s(op, "kind")); }
            "release" => { cl[at("c").unwrap() - 1].g.lock().unwrap().held.remove(&s(op, "kind")); tokio::time::sleep(Duration::from_millis(5)).await; }
            // start something whose answer may be held back
            "ask" => {
                let c = &mut cl[at("c").unwrap() - 1];
                let (a, t, what, x) = (c.admin.clone(), s(op, "t"), s(op, "what"), s(op, "x"));
                let before = c.g.lock().unwrap().waiting;
                c.used.insert(t.clone());
                let h = crt.as_ref().unwrap().spawn(async move {
                    match what.as_str() {
                        "user" => { let _ = a.user_with_privileges(&x, &t).await; }
                        "tenant" => { let _ = a.tenant_meta(&t).await; }
                        _ => if let Some(m) = a.tenant_meta(&t).await { let p: Vec<&str> = x.split('/').collect(); let _ = m.get_tskv_table_schema_by_meta(p[0], p[1]).await; },
                    }
                });
                let end = Instant::now() + Duration::from_secs(10);
                while !h.is_finished() && c.g.lock().unwrap().waiting == before && Instant::now() < end { nap().await }
                add.insert("wait".into(), json!(!h.is_finished()));
                c.bg.push(h);
            }
            // one answer to the watching client, if there is one
            "step" => {
                let c = &cl[at("c").unwrap() - 1];
                let end = Instant::now() + Duration::from_secs(10);
                while c.g.lock().unwrap().req.is_none() && Instant::now() < end { nap().await }
                let (req, seq) = { let g = c.g.lock().unwrap(); (g.req.clone(), g.seq) };
                let news = match &req { Some((t, b)) => sm.read().await.as_ref().unwrap().read_change_logs(C, t, *b).need_return(*b), None => false };
                if news {
                    c.g.lock().unwrap().permits = 1;
                    while c.g.lock().unwrap().seq == seq && Instant::now() < end { nap().await }
                }
                add.insert("news".into(), json!(news));
            }
            "open" => for c in cl.iter_mut() {
                { let mut g = c.g.lock().unwrap(); g.gated = false; g.held.clear(); }
                for b in c.bg.drain(1..) { let _ = tokio::time::timeout(Duration::from_secs(10), b).await; }
            },
            "restart" => { let mut w = sm.write().await; *w = None; *w = Some(StateMachine::open(&path, 64 << 20).expect("HARNESS open")); }
            "restore" => {
                let b = shadow.as_mut().unwrap();
                let (bytes, _) = b.create_snapshot(7).await.expect("create_snapshot");
                sm.write().await.as_mut().unwrap().restore(&bytes).await.expect("restore");
            }
            "flood" => for k in 0..u(op, "n") {
                let cmd = WriteCommand::ReportNodeMetrics(C.into(), models::meta_data::NodeMetrics { id: 1, disk_free: 5, time: k as i64, status: Default::default() });
                let b = serde_json::to_vec(&cmd).unwrap();
                sm.write().await.as_mut().unwrap().apply(&ctx, &b.clone().into()).await.expect("apply");
                shadow.as_mut().unwrap().apply(&ctx, &b.into()).await.expect("apply");
            },
            _ => {
                let cmd = { let g = sm.read().await; let a = g.as_ref().unwrap(); let l = if op["lag"] == json!(true) { shadow.as_ref().unwrap() } else { a }; command(op, &|x| pings.addr(x), &|t, d| buckets(l, t, d), &|t, d| prec_of(l, t, d), &mut add) };
                let bytes = serde_json::to_vec(&cmd).unwrap();
                let rb = shadow.as_mut().unwrap().apply(&ctx, &bytes.clone().into()).await.expect("apply");
                let rb = result(&String::from_utf8(rb.to_vec()).unwrap());
                if op["op"] == json!("retain") { add.insert("rid".into(), rb.1.clone()); }
                if op["lag"] == json!(true) { add.insert("res".into(), rb.0.clone()); }
                else if let Some(n) = at("c") {
                    let c = &cl[n - 1];
                    let r = via(c, op, &cmd).await;
                    if r == json!(["err", "NoTenant"]) { panic!("HARNESS via without tenant"); }
                    add.insert("res".into(), r);
                    // what it just wrote, without waiting
                    let own = match &cmd { WriteCommand::CreateDB(..) | WriteCommand::AlterDB(..) | WriteCommand::SetDBIsHidden(..) | WriteCommand::CreateTable(..) | WriteCommand::CreateBucket(..) => vec![data(c, &s(op, "t")).await], _ => vec![] };
                    add.insert("own".into(), json!(own));
                } else {
                    let r = sm.write().await.as_mut().unwrap().apply(&ctx, &bytes.into()).await.expect("apply");
                    add.insert("res".into(), result(&String::from_utf8(r.to_vec()).unwrap()).0);
                }
                add.insert("resb".into(), rb.0);
            }
        }
        if op["lag"] == json!(true) { add.insert("cl".into(), json!([])); }
        let mut out = vec![];
        for (k, c) in cl.iter().enumerate() {
            let busy = { let g = c.g.lock().unwrap(); g.gated || !g.held.is_empty() } || c.bg.len() > 1;
            if busy || op["lag"] == json!(true) { continue }
            let calm = settle(c, &sm).await;
            let mut v = cview(c, &pings.map).await;
            v["c"] = json!(k + 1);
            v["calm"] = json!(calm);
            if std::env::var_os("VERIF_DBG").is_some() {
                let rq = c.g.lock().unwrap().req.clone();
                let g = sm.read().await; let m = g.as_ref().unwrap();
                let (t, b) = rq.clone().unwrap_or_default();
                let d = m.read_change_logs(C, &t, b);
                let mut vs = vec![];
                for t in &c.used { if let Some(m) = c.admin.tenant_meta(t).await { vs.push((t.clone(), m.version().await)); } }
                v["dbg"] = json!([rq, d.min_ver, d.max_ver, vs]);
            }
            out.push(v);
        }
        add.insert("cl".into(), json!(out));
        // buckets are placed by the server's choice
        let g = sm.read().await;
        let l = if op["lag"] == json!(true) { shadow.as_ref().unwrap() } else { g.as_ref().unwrap() };
        let mut bks = vec![];
        for t in TENANTS { for d in DBS { let p = prec_of(l, t, d); for b in buckets(l, t, d) { bks.push(bucket_view(t, d, p, &b)); } } }
        add.insert("bks".into(), json!(bks));
        Value::Object(add)
    }));
    if let Some(r) = crt.take() { r.shutdown_background(); }
    let _ = std::fs::remove_dir_all(&root);
}
