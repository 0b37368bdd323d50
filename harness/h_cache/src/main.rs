use cache::*;
use h_util::*;
use serde_json::{json, Value};
use std::num::NonZeroUsize;
use std::sync::Arc;

type V = u64;
enum C {
    None,
    Lru(LruWrap<String, V>),
    Sync(SyncCacheWrap<String, V>),
    SSync(ShardedSyncCache<String, V>),
    Async(AsyncCacheWrap<String, V>),
    SAsync(ShardedAsyncCache<String, V>),
}

/// 2^30 stands for "no bound"
const UNB: u64 = 1 << 30;
fn wide(n: u64) -> usize { if n == UNB { usize::MAX } else { n as usize } }
fn nz(n: u64) -> NonZeroUsize { NonZeroUsize::new(wide(n)).expect("HARNESS cap") }

macro_rules! all {
    ($c:expr, $rt:expr, $x:ident, $e:expr, $a:expr) => {
        match $c {
            C::None => panic!("HARNESS: no cache"),
            C::Lru($x) => $e,
            C::Sync($x) => $e,
            C::SSync($x) => $e,
            C::Async($x) => $rt.block_on($a),
            C::SAsync($x) => $rt.block_on($a),
        }
    };
}

fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut c = C::None;
    let mut kv: CircularKVCache<u64, V> = CircularKVCache::new(1);
    drive(&["new", "knew"], |op| {
        match s(op, "op").as_str() {
            "new" => {
                let cap = u(op, "cap");
                c = match s(op, "kind").as_str() {
                    "lru" if cap == UNB => C::Lru(LruWrap::unbounded()),
                    "sync" if cap == UNB => C::Sync(SyncCacheWrap::new(LruWrap::unbounded())),
                    "async" if cap == UNB => C::Async(AsyncCacheWrap::new(LruWrap::unbounded())),
                    "ssync" if cap == UNB => C::SSync(ShardedSyncCache::create_lru_sharded_cache_unbounded()),
                    "lru" => C::Lru(LruWrap::new(nz(cap))),
                    "sync" => C::Sync(SyncCacheWrap::new(LruWrap::new(nz(cap)))),
                    "ssync" => C::SSync(ShardedSyncCache::create_lru_sharded_cache(wide(cap))),
                    "async" => C::Async(AsyncCacheWrap::new(LruWrap::new(nz(cap)))),
                    "sasync" => C::SAsync(ShardedAsyncCache::create_lru_sharded_cache(wide(cap))),
                    k => panic!("HARNESS kind {k}"),
                };
                // which keys share a shard (observable: identity of the shard a key is routed to)
                let keys: Vec<String> = op["keys"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
                let ids: Vec<usize> = keys.iter().map(|k| match &c {
                    C::SSync(x) => x.shard(k).map(|p| p as *const _ as *const u8 as usize).unwrap_or(0),
                    C::SAsync(x) => rt.block_on(async { x.lock_shard(k).await.map(|g| &**g as *const _ as *const u8 as usize).unwrap_or(0) }),
                    _ => 1,
                }).collect();
                let mut uniq: Vec<usize> = vec![];
                let sh: serde_json::Map<String, Value> = keys.iter().zip(ids).map(|(k, id)| {
                    let p = uniq.iter().position(|x| *x == id).unwrap_or_else(|| { uniq.push(id); uniq.len() - 1 });
                    (k.clone(), json!(p as u64))
                }).collect();
                json!({"shards": sh})
            }
            "insert" => { let (k, v) = (s(op, "k"), u(op, "v"));
                let r = all!(&mut c, rt, x, x.insert(k, v), x.insert(k, v)); json!({"ret": opt(r)}) }
            "get" => { let k = s(op, "k"); let r = all!(&mut c, rt, x, x.get(&k), x.get(&k)); json!({"ret": opt(r)}) }
            "remove" => { let k = s(op, "k"); let r = all!(&mut c, rt, x, x.remove(&k), x.remove(&k)); json!({"ret": opt(r)}) }
            "pop" => { let r = all!(&mut c, rt, x, x.pop(), x.pop()); json!({"ret": match r { Some((k, v)) => json!([{"k": k, "v": v}]), None => json!([]) }}) }
            "popshard" => { let k = s(op, "k");
                let r = match &mut c { C::SSync(x) => x.pop_shard(&k), C::SAsync(x) => rt.block_on(x.pop_shard(&k)),
                    c2 => all!(c2, rt, x, x.pop(), x.pop()) };
                json!({"ret": match r { Some((k, v)) => json!([{"k": k, "v": v}]), None => json!([]) }}) }
            "setcap" => { let n = nz(u(op, "n")); all!(&mut c, rt, x, x.set_capacity(n), x.set_capacity(n)); json!({}) }
            "cap" => { let r = all!(&mut c, rt, x, x.get_capacity(), x.get_capacity()); json!({"ret": if r >= 1 << 60 { UNB } else { r as u64 }}) }
            "usage" => { let r = all!(&mut c, rt, x, x.get_usage(), x.get_usage()); json!({"ret": r}) }
            "clear" => { all!(&mut c, rt, x, x.clear(), x.clear()); json!({}) }
            // n threads hammer one shared cache; afterwards the quiescent contents are read back
            "storm" => {
                let n = u(op, "threads"); let per = u(op, "per"); let cap = u(op, "cap"); let kind = s(op, "kind");
                let keys: Vec<String> = op["keys"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
                storm(&kind, n, per, cap, &keys, u(op, "seed"))
            }
            "knew" => { kv = CircularKVCache::new(u(op, "cap") as usize); json!({}) }
            "kput" => { kv.put(u(op, "k"), u(op, "v")); json!({}) }
            "kget" => json!({"ret": opt(kv.get(&u(op, "k")))}),
            "klast" => json!({"ret": opt(kv.last())}),
            "kdelbefore" => { kv.del_before(u(op, "k")); json!({}) }
            "kdelafter" => { kv.del_after(u(op, "k")); json!({}) }
            o => panic!("HARNESS op {o}"),
        }
    });
}

fn storm(kind: &str, n: u64, per: u64, cap: u64, keys: &[String], seed: u64) -> Value {
    // every value is unique: thread * 1_000_000 + i
    let sync: Arc<dyn Fn(u64, &str, u64) -> Option<V> + Send + Sync>;
    let usage: Box<dyn Fn() -> (usize, usize)>;
    match kind {
        "ssync" => {
            let c: Arc<ShardedSyncCache<String, V>> = Arc::new(ShardedSyncCache::create_lru_sharded_cache(cap as usize));
            let c2 = c.clone();
            sync = Arc::new(move |o, k, v| match o { 0 => c2.insert(k.to_string(), v), 1 => c2.get(&k.to_string()), _ => c2.remove(&k.to_string()) });
            usage = Box::new(move || (c.get_usage(), c.get_capacity()));
        }
        _ => {
            let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().unwrap());
            let c: Arc<ShardedAsyncCache<String, V>> = Arc::new(ShardedAsyncCache::create_lru_sharded_cache(cap as usize));
            let (c2, rt2) = (c.clone(), rt.clone());
            sync = Arc::new(move |o, k, v| { let k = k.to_string(); rt2.block_on(async { match o { 0 => c2.insert(k, v).await, 1 => c2.get(&k).await, _ => c2.remove(&k).await } }) });
            usage = Box::new(move || rt.block_on(async { (c.get_usage().await, c.get_capacity().await) }));
        }
    }
    // Each value is handed out once by insert (as the displaced value) or remove, or stays; get never invents one.
    let mut hs = vec![];
    for t in 0..n {
        let (sync, keys) = (sync.clone(), keys.to_vec());
        hs.push(std::thread::spawn(move || {
            let mut x = seed.wrapping_mul(6364136223846793005).wrapping_add(t * 7919 + 1);
            let mut put = vec![]; let mut out = vec![]; let mut seen = vec![];
            for j in 0..per {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let k = &keys[(x >> 33) as usize % keys.len()];
                match (x >> 20) % 3 {
                    0 => { let v = (t + 1) * 1_000_000 + j; put.push((k.clone(), v)); if let Some(o) = sync(0, k, v) { out.push((k.clone(), o)); } }
                    1 => { if let Some(o) = sync(1, k, 0) { seen.push((k.clone(), o)); } }
                    _ => { if let Some(o) = sync(2, k, 0) { out.push((k.clone(), o)); } }
                }
            }
            (put, out, seen)
        }));
    }
    let mut put = std::collections::HashSet::new(); let mut out = vec![]; let mut seen = vec![];
    for h in hs { let (p, o, s) = h.join().unwrap(); put.extend(p); out.extend(o); seen.extend(s); }
    let left: Vec<(String, V)> = keys.iter().filter_map(|k| sync(1, k, 0).map(|v| (k.clone(), v))).collect();
    let invented = seen.iter().chain(out.iter()).chain(left.iter()).filter(|e| !put.contains(e)).count();
    let mut o2: Vec<_> = out.iter().chain(left.iter()).collect(); let total = o2.len(); o2.sort(); o2.dedup();
    let (us, ca) = usage();
    json!({"invented": invented, "dup": total - o2.len(), "put": put.len(), "out": out.len(), "left": left.len(), "usage": us, "capacity": ca})
}
