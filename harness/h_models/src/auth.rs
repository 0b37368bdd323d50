//! models::auth against AccessTrace.tla.  Ids are symbols 1.. for 128-bit ones; 0 stands for "every one".
use base64::prelude::{Engine, BASE64_STANDARD};
use h_util::*;
use models::auth::auth_cache::{AuthCache, AuthCacheKey};
use models::auth::privilege::{DatabasePrivilege as D, GlobalPrivilege as G, Privilege, PrivilegeChecker, TenantObjectPrivilege as T};
use models::auth::role::{CustomTenantRole, SystemTenantRole, TenantRole, TenantRoleIdentifier, UserRole};
use models::auth::user::{admin_user, AuthType, User, UserDesc, UserInfo, UserOptions, UserOptionsBuilder};
use models::auth::{bcrypt_hash, bcrypt_verify, AuthError};
use models::oid::Identifier;
use parking_lot::RwLock;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::{Duration, Instant};

const IDS: [u128; 4] = [0, 1, 0x1_0000_0000_0000_0000, u128::MAX];
fn id(v: &Value) -> u128 { IDS[v.as_u64().expect("HARNESS id") as usize - 1] }
fn oid(v: &Value) -> Option<u128> { if v.as_u64() == Some(0) { None } else { Some(id(v)) } }
fn sym(x: u128) -> usize { IDS.iter().position(|y| *y == x).expect("a known id") + 1 }
fn osym(x: Option<u128>) -> usize { x.map(sym).unwrap_or(0) }
fn level(p: &str) -> D { match p { "r" => D::Read, "w" => D::Write, "a" => D::Full, _ => panic!("HARNESS level {p}") } }
fn lv(p: &D) -> &'static str { match p { D::Read => "r", D::Write => "w", D::Full => "a" } }
fn prv(v: &Value) -> Privilege<u128> {
    let t = oid(&v["t"]);
    let o = |x| Privilege::TenantObject(x, t);
    match s(v, "k").as_str() {
        "root" => Privilege::Global(G::System), "user" => Privilege::Global(G::User(t)), "ten" => Privilege::Global(G::Tenant(t)),
        "sys" => o(T::System), "mem" => o(T::MemberFull), "role" => o(T::RoleFull),
        "db" => { let d = s(v, "d"); o(T::Database(level(&s(v, "p")), if d == "*" { None } else { Some(d) })) }
        k => panic!("HARNESS privilege {k}"),
    }
}
fn show(p: &Privilege<u128>) -> Value {
    let (k, t, d, l) = match p {
        Privilege::Global(G::System) => ("root", 0, String::new(), ""),
        Privilege::Global(G::User(t)) => ("user", osym(*t), String::new(), ""),
        Privilege::Global(G::Tenant(t)) => ("ten", osym(*t), String::new(), ""),
        Privilege::TenantObject(o, t) => match o {
            T::System => ("sys", osym(*t), String::new(), ""),
            T::MemberFull => ("mem", osym(*t), String::new(), ""),
            T::RoleFull => ("role", osym(*t), String::new(), ""),
            T::Database(l, d) => ("db", osym(*t), d.clone().unwrap_or("*".into()), lv(l)),
        },
    };
    json!({"k": k, "t": t, "d": d, "p": l})
}
fn shows(x: &HashSet<Privilege<u128>>) -> Value { json!(x.iter().map(show).collect::<Vec<_>>()) }
fn sysrole(x: &str) -> Option<SystemTenantRole> { if x.is_empty() { None } else { Some(SystemTenantRole::try_from(x).expect("HARNESS system role")) } }
fn ostr(v: &Value) -> Option<String> { v.get(0).map(|x| x.as_str().expect("HARNESS string").to_string()) }
fn obool(v: &Value) -> Option<bool> { v.get(0).map(|x| x.as_bool().expect("HARNESS bool")) }
fn pem(kind: &str, body: &str) -> String { format!("-----BEGIN {kind} KEY-----\n{body}\n-----END {kind} KEY-----") }
fn options(o: &Value) -> UserOptions {
    let mut x = UserOptionsBuilder::default();
    if let Some(p) = ostr(&o["pw"]) { x.password(p).expect("password"); }
    if let Some(p) = ostr(&o["badhash"]) { x.hash_password(p); }
    if let Some(c) = obool(&o["must"]) { x.must_change_password(c); }
    if let Some(k) = ostr(&o["rsa"]) { x.rsa_public_key(if k == "bad" { k } else { pem("PUBLIC", &k) }); }
    if let Some(c) = ostr(&o["note"]) { x.comment(c); }
    if let Some(g) = obool(&o["adm"]) { x.granted_admin(g); }
    x.build().expect("options")
}
/// Which of the passwords `pws` the hash is of: a list, or ["?"] when it is not a hash.
fn options_view(o: &UserOptions, pws: &[String]) -> Value {
    let pw: Vec<Value> = match o.hash_password() {
        None => vec![],
        Some(h) => match pws.iter().find(|p| bcrypt_verify(p, h).unwrap_or(false)) { Some(p) => vec![json!(p)], None => vec![json!("?")] },
    };
    let rsa = o.rsa_public_key().map(|k| k.lines().nth(1).unwrap_or(k).to_string());
    json!({"pw": pw, "must": opt(o.must_change_password()), "rsa": opt(rsa), "note": opt(o.comment()), "adm": opt(o.granted_admin()),
           "plain": o.hash_password().map(|h| pws.iter().any(|p| p.len() > 9 && h.contains(p.as_str()))).unwrap_or(false)})
}
fn info(v: &Value) -> UserInfo {
    UserInfo { user: s(v, "user"), password: s(v, "password"), private_key: ostr(&v["key"]).map(|k| if k == "bad" { k } else { pem("PRIVATE", &k) }) }
}
fn login(o: &UserOptions, i: &UserInfo) -> &'static str {
    match AuthType::from(o).access_check(i) {
        Ok(()) => "ok",
        Err(AuthError::PasswordNotSet) => "notset",
        Err(AuthError::AccessDenied { user_name, .. }) => { assert_eq!(user_name, i.user); "denied" }
        Err(_) => "error",
    }
}
fn strs(v: &Value) -> Vec<String> { v.as_array().expect("HARNESS list").iter().map(|x| x.as_str().expect("HARNESS string").to_string()).collect() }

struct World { roles: HashMap<String, Arc<RwLock<CustomTenantRole<u128>>>>, cache: AuthCache<AuthCacheKey, String>, opts: UserOptions, base: Instant }

pub fn main() {
    let fresh = || World { roles: HashMap::new(), cache: AuthCache::new(2, None), opts: UserOptions::default(), base: Instant::now() };
    let mut w = fresh();
    let t_role = |r: &Value, w: &World| -> TenantRole<u128> {
        let n = r.as_str().expect("HARNESS role");
        match n { "owner" | "member" => TenantRole::System(sysrole(n).unwrap()), _ => TenantRole::Custom(w.roles[n].clone()) }
    };
    drive(&["reset"], |op| match s(op, "op").as_str() {
        "reset" => { w = fresh(); json!({}) }
        "pair" => {
            let (h, x) = (prv(&op["h"]), prv(&op["w"]));
            let js = |p: &Privilege<u128>| serde_json::from_str::<Privilege<u128>>(&serde_json::to_string(p).unwrap()).map(|q| q == *p).unwrap_or(false);
            // 128-bit ids are kept as they are by what carries privileges
            json!({"can": h.check_privilege(&x), "eq": h == x, "back": js(&h) && js(&x), "named": (h.to_string() == x.to_string()) })
        }
        "sysrole" => {
            let r = sysrole(&s(op, "r")).expect("HARNESS");
            json!({"ps": shows(&r.to_privileges(&id(&op["t"]))), "name": r.name(), "shown": r.to_string(), "bad": SystemTenantRole::try_from(op["bad"].as_str().unwrap_or("Owner")).is_err()})
        }
        "role" => {
            let prs = op["pr"].as_array().expect("HARNESS").iter().map(|q| (q[0].as_str().unwrap().to_string(), level(q[1].as_str().unwrap()))).collect();
            let r = CustomTenantRole::new(id(&op["id"]), s(op, "n"), sysrole(&s(op, "sys")), prs);
            let v = role_view(&r, op);
            w.roles.insert(s(op, "n"), Arc::new(RwLock::new(r)));
            v
        }
        "grant" => {
            let mut r = w.roles[&s(op, "n")].write();
            let ok = r.grant_privilege(s(op, "d"), level(&s(op, "p"))).is_ok();
            let mut v = role_view(&r, op); v["ok"] = json!(ok); v
        }
        "revoke" => {
            let mut r = w.roles[&s(op, "n")].write();
            let res = match r.revoke_privilege(&s(op, "d"), &level(&s(op, "p"))) { Ok(x) => json!(["ok", x]), Err(AuthError::PrivilegeNotFound { .. }) => json!(["err", false]), Err(e) => json!([e.to_string(), false]) };
            let mut v = role_view(&r, op); v["res"] = res; v
        }
        // a user with roles in some tenants, asked about everything in `asks`
        "user" => {
            let desc = UserDesc::new(id(&op["id"]), s(op, "n"), options(&op["o"]), b(op, "root"));
            let (adm, granted) = (desc.is_admin(), desc.is_granted_admin());
            let desc = desc.rename(s(op, "n2"));
            let seen = [*desc.id() == id(&op["id"]), desc.name() == s(op, "n2")];
            let rid = op["ten"].get(0).map(|q| match q[1].as_str().unwrap() { n @ ("owner" | "member") => TenantRoleIdentifier::System(sysrole(n).unwrap()), n => TenantRoleIdentifier::Custom(n.into()) });
            let ridn = rid.as_ref().map(|x| x.name().to_string()).unwrap_or_default();
            let user = if adm { admin_user(desc, rid) } else {
                let roles: HashMap<u128, TenantRole<u128>> = op["ten"].as_array().unwrap().iter().map(|q| (id(&q[0]), t_role(&q[1], &w))).collect();
                User::new(desc, UserRole::Public(roles).to_privileges(), rid)
            };
            let can: Vec<bool> = op["asks"].as_array().unwrap().iter().map(|a| user.check_privilege(&prv(a))).collect();
            let short: Vec<Value> = (1..=IDS.len()).map(|t| { let x = IDS[t - 1]; json!([user.can_access_system(x), user.can_access_role(x), user.can_read_database(x, "a"), user.can_read_database(x, "")]) }).collect();
            let back: User = serde_json::from_str(&serde_json::to_string(&user).unwrap()).expect("a user reads back");
            let same = back == user && op["asks"].as_array().unwrap().iter().zip(&can).all(|(a, c)| back.check_privilege(&prv(a)) == *c) && back.desc().is_root_admin() == user.desc().is_root_admin();
            json!({"adm": adm, "granted": granted, "can": can, "short": short, "back": same, "ridn": user.role().map(|r| r.name().to_string()).unwrap_or_default(), "ridw": ridn, "seen": seen})
        }
        "opts" => { w.opts = options(&op["o"]); options_view(&w.opts, &strs(&op["pws"])) }
        // what is newly set goes over what was there
        "merge" => { let n = options(&op["o"]); w.opts = n.merge(std::mem::take(&mut w.opts)); options_view(&w.opts, &strs(&op["pws"])) }
        "chpw" => { w.opts.change_password(); options_view(&w.opts, &strs(&op["pws"])) }
        "hide" => { let mut o = w.opts.clone(); o.hidden_password(); let v = options_view(&o, &strs(&op["pws"])); let t = w.opts.to_string(); json!({"v": v, "leak": w.opts.hash_password().map(|h| h.len() > 9 && t.contains(h)).unwrap_or(false)}) }
        "keep" => { w.opts = serde_json::from_str(&serde_json::to_string(&w.opts).unwrap()).expect("options read back"); options_view(&w.opts, &strs(&op["pws"])) }
        "login" => json!({"res": login(&w.opts, &info(op))}),
        "hash" => { let (p, q) = (s(op, "a"), s(op, "b")); let h = bcrypt_hash(&p).expect("hash"); json!({"same": bcrypt_verify(&q, &h).expect("verify"), "plain": h.contains(&p) && p.len() > 9, "again": h == bcrypt_hash(&p).unwrap()}) }
        "basic" => {
            let a = info(op).to_authorization();
            let t = a.strip_prefix("Basic ").map(|x| String::from_utf8(BASE64_STANDARD.decode(x).expect("base64")).unwrap());
            json!({"text": opt(t)})
        }
        // the cache: every step with the time (ms) it began after and ended before
        "cache" => { w.cache = AuthCache::new(u(op, "cap") as usize, op["ttl"].get(0).map(|x| Duration::from_millis(x.as_u64().unwrap()))); w.base = Instant::now(); json!({}) }
        o @ ("put" | "get" | "rm" | "clear" | "iter" | "signin") => {
            let key = || AuthCacheKey::new(&info(op), s(op, "t"));
            let a = w.base.elapsed().as_micros() as u64;
            let r = match o {
                "put" => { w.cache.insert(key(), s(op, "v")); json!({}) }
                "get" => json!({"r": opt(w.cache.get(&key()))}),
                "rm" => json!({"r": w.cache.remove(&key())}),
                "clear" => { w.cache.clone().clear(); json!({}) }
                // what Cnosdbms::authenticate does with it
                "signin" => { let i = info(op); let k = AuthCacheKey::new(&i, s(op, "t")); match w.cache.get(&k) { Some(v) => json!({"r": [v], "hit": true}), None => if login(&w.opts, &i) == "ok" { w.cache.insert(k, i.user.clone()); json!({"r": [i.user], "hit": false}) } else { json!({"r": [], "hit": false}) } } }
                _ => json!({"r": w.cache.iter().map(|(k, v)| json!({"t": k.tenant(), "v": v})).collect::<Vec<_>>()}),
            };
            let z = w.base.elapsed().as_micros() as u64 + 1;
            let mut r = r; r["a"] = json!(a); r["z"] = json!(z); r
        }
        "sleep" => { std::thread::sleep(Duration::from_millis(u(op, "ms"))); json!({}) }
        o => panic!("HARNESS op {o}"),
    });
}
fn role_view(r: &CustomTenantRole<u128>, op: &Value) -> Value {
    let back: CustomTenantRole<u128> = serde_json::from_str(&serde_json::to_string(r).unwrap()).expect("a role reads back");
    let t = id(&op["t"]);
    json!({"prs": r.additional_privileges().iter().map(|(d, p)| json!([d, lv(p)])).collect::<Vec<_>>(), "inh": r.inherit_role().as_ref().map(|x| x.name()).unwrap_or(""), "ps": shows(&r.to_privileges(&t)),
           "name": r.name(), "rid": sym(*r.id()), "back": back.to_privileges(&t) == r.to_privileges(&t) && back.name() == r.name() && back.id() == r.id()})
}
