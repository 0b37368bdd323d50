//! Token buckets.  Time is moved by rewriting the serialized deadline: one model unit is a
//! tenth of the interval, and intervals are long enough that real time does not matter.
use chrono::{DateTime, Duration, Utc};
use config::common::{CountBucketConfig, RateBucketConfig};
use h_util::*;
use limiter_bucket::*;
use serde_json::{json, Value};
use std::sync::Arc;

const BIG: u64 = 1_000_000_000;
fn num(v: &Value, k: &str) -> usize { let x = u(v, k); if x >= BIG { usize::MAX } else { x as usize } }
fn sat(x: usize) -> u64 { (x as u64).min(BIG) }

fn shift(b: &RateBucket, ms: i64) -> RateBucket {
    let mut j = serde_json::to_value(b).expect("serialize bucket");
    let d = j["critical"]["deadline"].as_str().expect("HARNESS: deadline field").to_string();
    let d: DateTime<Utc> = DateTime::parse_from_rfc3339(&d).expect("HARNESS: deadline format").into();
    j["critical"]["deadline"] = json!((d - Duration::milliseconds(ms)).to_rfc3339());
    serde_json::from_value(j).expect("deserialize bucket")
}

fn left(b: &RateBucket, unit: i64) -> i64 {
    let j = serde_json::to_value(b).expect("serialize bucket");
    let d: DateTime<Utc> = DateTime::parse_from_rfc3339(j["critical"]["deadline"].as_str().unwrap()).unwrap().into();
    let ms = (d - Utc::now()).num_milliseconds();
    (ms as f64 / unit as f64).ceil() as i64
}

fn main() {
    let mut rb: Option<RateBucket> = None;
    let mut unit = 1i64;
    let mut cb = CountBucket::default();
    drive(&["new", "cnew", "storm"], |op| {
        let name = s(op, "op");
        match name.as_str() {
            "new" => {
                let (refill, initial) = (num(op, "refill"), num(op, "initial"));
                let max = op["max"].as_array().unwrap().first().map(|m| if m.as_u64().unwrap() >= BIG { usize::MAX } else { m.as_u64().unwrap() as usize });
                unit = i(op, "unit_ms");
                let interval = unit * 10;
                let b = if b(op, "via_config") {
                    RateBucket::from(&RateBucketConfig { max, initial, refill, interval })
                } else {
                    let mut bld = RateBucket::builder();
                    bld.initial(initial).refill(refill).interval(Duration::milliseconds(interval));
                    if let Some(m) = max { bld.max(m); }
                    if refill % 2 == 0 { bld.build() } else { RateBucket::from(&bld) }
                };
                let r = json!({"got_max": sat(b.max()), "got_refill": sat(b.refill()), "got_interval": b.interval().num_milliseconds() / unit,
                    "bal": sat(b.balance()), "left": left(&b, unit), "traffic": b.to_traffic_string() == format!("{}B/{}s", b.refill(), interval / 1000)});
                rb = Some(shift(&b, unit / 2));
                r
            }
            "tick" => { let b = rb.take().unwrap(); rb = Some(shift(&b, unit * i(op, "n"))); json!({}) }
            "acquire" => { let b = rb.as_ref().unwrap(); let r = b.acquire(num(op, "p")); json!({"ret": r.is_ok(), "bal": sat(b.balance()), "left": left(b, unit)}) }
            "acquire_one" => { let b = rb.as_ref().unwrap(); let r = b.acquire_one(); json!({"ret": r.is_ok(), "bal": sat(b.balance()), "left": left(b, unit)}) }
            "take" => { let b = rb.as_ref().unwrap(); let r = b.acquire_closed(num(op, "p")); json!({"ret": sat(r), "bal": sat(b.balance()), "left": left(b, unit)}) }
            "save" => {
                let b = rb.take().unwrap();
                let bin: RateBucket = bincode::deserialize(&bincode::serialize(&b).expect("bincode")).expect("bincode back");
                let js: RateBucket = serde_json::from_str(&serde_json::to_string(&b).unwrap()).expect("json back");
                let same = bin == b && js == b;
                let moved = shift(&b, 1);
                // a bucket that differs in one saved value is another bucket
                let base = serde_json::to_value(&b).unwrap();
                let alter = |k: &str| { let mut j = base.clone(); let p = if k == "balance" { &mut j["critical"][k] } else { &mut j[k] };
                    let n = p.as_u64().expect("HARNESS field"); *p = json!(if n == 0 { 1 } else { n - 1 }); serde_json::from_value::<RateBucket>(j).expect("altered") };
                let differs = moved != b && ["refill", "interval", "max", "balance"].iter().all(|k| alter(k) != b && b != alter(k));
                // a saved form with a value missing, twice there or unknown is refused; the order of values is immaterial
                let part = |k: &str| format!("\"{k}\":{}", base[k]);
                let all = ["refill", "interval", "max", "critical"];
                let text = |ks: &[String]| format!("{{{}}}", ks.join(","));
                let read = |t: String| serde_json::from_str::<RateBucket>(&t).ok();
                let parts: Vec<String> = all.iter().map(|k| part(k)).collect();
                let mut back = parts.clone(); back.reverse();
                let strict = (0..4).all(|n| { let mut m = parts.clone(); m.remove(n); read(text(&m)).is_none() }) && (0..4).all(|n| { let mut m = parts.clone(); m.push(parts[n].clone()); read(text(&m)).is_none() })
                    && { let mut m = parts.clone(); m.push("\"other\":1".into()); read(text(&m)).is_none() } && read(text(&back)).as_ref() == Some(&b)
                    && serde_json::from_str::<RateBucket>(&format!("[{}]", all.iter().map(|k| base[*k].to_string()).collect::<Vec<_>>().join(","))).ok().as_ref() == Some(&b)
                    && (0..4).all(|n| serde_json::from_str::<RateBucket>(&format!("[{}]", all[..n].iter().map(|k| base[*k].to_string()).collect::<Vec<_>>().join(","))).is_err());
                let r = json!({"same": same, "differs": differs, "strict": strict, "bal": sat(bin.balance()), "left": left(&bin, unit),
                    "got_max": sat(bin.max()), "got_refill": sat(bin.refill()), "got_interval": bin.interval().num_milliseconds() / unit});
                rb = Some(if op["via"] == "json" { js } else { bin });
                r
            }
            "cnew" => {
                let max = op["max"].as_array().unwrap().first().map(|m| m.as_i64().unwrap());
                let init = i(op, "init");
                cb = match s(op, "via").as_str() {
                    "config" => CountBucket::from(&CountBucketConfig { max, initial: init }),
                    "new" => CountBucket::new_with_init(init, max),
                    "builder" => { let mut b = CountBucketBuilder::default(); b.initial(init); if let Some(m) = max { b.max(m); } b.build() }
                    "zero" => CountBucket::new(max),
                    x => panic!("HARNESS {x}"),
                };
                json!({"ret": cb.fetch(), "got_max": opt(cb.max())})
            }
            "inc" => { cb.inc(i(op, "n")); json!({"ret": cb.fetch()}) }
            "dec" => { cb.dec(i(op, "n")); json!({"ret": cb.fetch()}) }
            "csave" => {
                cb = serde_json::from_str(&serde_json::to_string(&cb).unwrap()).expect("count bucket json");
                cb = bincode::deserialize(&bincode::serialize(&cb).unwrap()).expect("count bucket bincode");
                json!({"ret": cb.fetch(), "got_max": opt(cb.max())})
            }
            "storm" => {
                // threads share one bucket whose next refill is far away: every token is handed out once
                let (n, per, p) = (u(op, "threads"), u(op, "per"), u(op, "p") as usize);
                let mut bld = RateBucket::builder();
                bld.initial(u(op, "initial") as usize).max(u(op, "initial") as usize).interval(Duration::hours(1));
                let b = Arc::new(bld.build());
                let closed = op["closed"].as_bool().unwrap();
                let hs: Vec<_> = (0..n).map(|_| { let b = b.clone(); std::thread::spawn(move || {
                    let mut got = 0usize;
                    for _ in 0..per { if closed { got += b.acquire_closed(p); } else if b.acquire(p).is_ok() { got += p; } }
                    got
                }) }).collect();
                let got: usize = hs.into_iter().map(|h| h.join().unwrap()).sum();
                json!({"got": got, "bal": b.balance()})
            }
            x => panic!("HARNESS: op {x}"),
        }
    });
}
