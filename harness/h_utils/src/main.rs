use h_util::*;
use serde_json::{json, Value};
use std::hash::Hasher;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use utils::duration::CnosDuration;
use utils::id_generator::IDGenerator;
use utils::precision::{timestamp_convert, Precision};
use utils::*;

fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn pre(x: &str) -> Precision { match x { "MS" => Precision::MS, "US" => Precision::US, "NS" => Precision::NS, _ => panic!("HARNESS") } }
fn dur(d: &CnosDuration) -> Value {
    let shown = d.to_string();
    let back = CnosDuration::new(&shown);
    let ser: CnosDuration = bincode::deserialize(&bincode::serialize(d).unwrap()).unwrap();
    let js: CnosDuration = serde_json::from_str(&serde_json::to_string(d).unwrap()).unwrap();
    let inf = shown == "INF";
    json!({"inf": inf, "total": nat(d.duration.as_nanos()), "back": back.as_ref() == Some(d), "saved": ser == *d && js == *d,
        "ns": int(d.to_nanoseconds() as i128), "us": int(d.to_microseconds() as i128), "ms": int(d.to_millisecond() as i128),
        "pns": int(d.to_precision(Precision::NS) as i128), "pus": int(d.to_precision(Precision::US) as i128), "pms": int(d.to_precision(Precision::MS) as i128)})
}
#[derive(Debug)]
struct El { k: i64, id: i64, log: Arc<Mutex<Vec<i64>>> }
impl Drop for El { fn drop(&mut self) { self.log.lock().unwrap().push(self.id); } }

fn main() {
    let mut f = BloomFilter::default();
    let gen = Arc::new(Mutex::new(IDGenerator::new(0)));
    drive(&["bnew", "conv", "dur", "dedup", "bkdr", "ids", "prec", "precdef", "lebytes", "inew"], |op| {
        let name = s(op, "op");
        match name.as_str() {
            "bnew" => { f = BloomFilter::new(u(op, "m")); json!({"len": f.len(), "void": f.is_empty(), "empty_any": op["probe"].as_array().unwrap().iter().any(|k| f.maybe_contains(&bytes(k)))}) }
            "binsert" => { f.insert(&bytes(&op["k"])); json!({"len": f.len(), "set": f.bytes().iter().map(|b| b.count_ones()).sum::<u32>()}) }
            "bask" => json!({"ret": f.maybe_contains(&bytes(&op["k"]))}),
            "bsave" => {
                let g = match s(op, "via").as_str() {
                    "bytes" => BloomFilter::with_data(f.bytes()),
                    "bincode" => bincode::deserialize(&bincode::serialize(&f).unwrap()).unwrap(),
                    _ => panic!("HARNESS"),
                };
                let same = g == f && g.bytes() == f.bytes();
                f = g;
                json!({"same": same, "len": f.len()})
            }
            "bload" => { f = BloomFilter::with_data(&bytes(&op["bytes"])); json!({"ret": op["keys"].as_array().unwrap().iter().map(|k| f.maybe_contains(&bytes(k))).collect::<Vec<_>>()}) }
            "bfill" => {
                // many keys: no false negative; how many of as many other keys are claimed
                let (n, m) = (u(op, "n"), u(op, "m"));
                let mut g = BloomFilter::new(m);
                for k in 0..n { g.insert(format!("in-{k}").as_bytes()); }
                let g = BloomFilter::with_data(g.bytes());
                let missing = (0..n).filter(|k| !g.maybe_contains(format!("in-{k}").as_bytes())).count();
                let fp = (0..n).filter(|k| g.maybe_contains(format!("out-{k}").as_bytes())).count();
                json!({"missing": missing, "fp": fp})
            }
            "conv" => {
                let r = timestamp_convert(pre(op["from"].as_str().unwrap()), pre(op["to"].as_str().unwrap()), unint(&op["ts"]) as i64);
                json!({"ret": opt(r.map(|x| int(x as i128)))})
            }
            "prec" => {
                use datafusion::arrow::datatypes::TimeUnit;
                let t = s(op, "text");
                let p = Precision::new(&t);
                json!({"ret": opt(p.map(|p| p.to_string())), "code": opt(p.map(|p| (p as u8, Precision::from(p as u8) == p))),
                    "unit": opt(p.map(|p| { let u: TimeUnit = p.into(); (format!("{u:?}"), Precision::from(u) == p) }))})
            }
            "precdef" => {
                use datafusion::arrow::datatypes::TimeUnit;
                json!({"dflt": Precision::default().to_string(), "codes": (0..=255u8).map(|n| Precision::from(n).to_string()).collect::<Vec<_>>(), "sec": Precision::from(TimeUnit::Second).to_string(),
                    "saved": (vec!["MS", "US", "NS"].iter().all(|x| { let p = pre(x); bincode::deserialize::<Precision>(&bincode::serialize(&p).unwrap()).unwrap() == p && serde_json::to_value(p).unwrap() == json!(x) })) })
            }
            "dur" => {
                let d = match s(op, "kind").as_str() {
                    "text" => CnosDuration::new(op["text"].as_str().unwrap()),
                    "day" => Some(CnosDuration::new_with_day(unnat(&op["n"]) as u64)),
                    "inf" => Some(CnosDuration::new_inf()),
                    "parts" => Some(CnosDuration::new_with_duration(std::time::Duration::new(unnat(&op["secs"]) as u64, u(op, "nanos") as u32))),
                    "init" => Some(CnosDuration::init(std::time::Duration::new(unnat(&op["secs"]) as u64, u(op, "nanos") as u32), false)),
                    _ => panic!("HARNESS"),
                };
                json!({"ret": opt(d.as_ref().map(dur))})
            }
            "dedup" => {
                let log = Arc::new(Mutex::new(vec![]));
                let mut v: Vec<El> = op["v"].as_array().unwrap().iter().enumerate().map(|(n, k)| El { k: k.as_i64().unwrap(), id: n as i64 + 1, log: log.clone() }).collect();
                match s(op, "mode").as_str() {
                    "key" => dedup_front_by_key(&mut v, |e| e.k),
                    "near" => dedup_front_by(&mut v, |a, b| (a.k - b.k).abs() <= 1),
                    // the relation gives up at its at-th question
                    "stop" => { let (at, mut n) = (u(op, "at"), 0);
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dedup_front_by(&mut v, |a, b| { n += 1; if n == at { panic!("stop") } (a.k - b.k).abs() <= 1 }))); }
                    _ => panic!("HARNESS"),
                }
                let kept: Vec<i64> = v.iter().map(|e| e.id).collect();
                let dropped = log.lock().unwrap().clone();
                drop(v);
                let all = log.lock().unwrap().len();
                json!({"kept": kept, "dropped": dropped, "all": all})
            }
            "bkdr" => {
                let mut h = match op["prefix"].as_array().unwrap().first() { Some(p) => BkdrHasher::with_prefix(p.as_u64().unwrap()), None => BkdrHasher::new() };
                if op["start"].as_array().unwrap().len() == 4 { let st = op["start"].as_array().unwrap().iter().rev().fold(0u64, |a, x| (a << 16) | x.as_u64().unwrap()); h = BkdrHasher::with_number(st); }
                let mut steps = vec![];
                for (n, part) in op["parts"].as_array().unwrap().iter().enumerate() { let b = bytes(part); if n % 2 == 0 { h.write(&b); } else { h.hash_with(&b); } steps.push(limbs16(h.number())); }
                json!({"steps": steps, "fin": limbs16(h.finish()), "lo": limbs16(h.number_with_prefix() as u64), "hi": limbs16((h.number_with_prefix() >> 64) as u64)})
            }
            "inew" => { *gen.lock().unwrap() = IDGenerator::new(u(op, "n")); json!({}) }
            "iset" => { gen.lock().unwrap().set(u(op, "n")); json!({}) }
            "inext" => json!({"ret": gen.lock().unwrap().clone().next_id()}),
            "ids" => {
                let g = IDGenerator::new(u(op, "n"));
                let (t, per) = (u(op, "threads"), u(op, "per"));
                let hs: Vec<_> = (0..t).map(|_| { let g = g.clone(); std::thread::spawn(move || (0..per).map(|_| g.next_id()).collect::<Vec<_>>()) }).collect();
                let vs: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                let asc = vs.iter().all(|v| v.windows(2).all(|w| w[0] < w[1]));
                let mut all: Vec<u64> = vs.concat(); let n = all.len(); all.sort(); all.dedup();
                json!({"asc": asc, "distinct": all.len(), "made": n, "min": all[0]})
            }
            "lebytes" => {
                let x = unint(&op["x"]);
                let (a, b, c) = (to_bytes!((x as i64)), to_bytes!((x as u32)), to_bytes!((x as i16)));
                let back = from_bytes!(i64, &a[0..8]) == x as i64 && from_bytes!(u32, &b[0..4]) == x as u32 && from_bytes!(i16, &c[0..2]) == x as i16;
                json!({"b64": a.to_vec(), "b32": b.to_vec(), "b16": c.to_vec(), "back": back, "hex": to_hex_string(&c)})
            }
            x => panic!("HARNESS: op {x}"),
        }
    });
}
