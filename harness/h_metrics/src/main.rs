//! Metric registers, recorders and the Prometheus report.
use h_util::*;
use metrics::average::U64Average;
use metrics::count::U64Counter;
use metrics::duration::*;
use metrics::gauge::*;
use metrics::histogram::*;
use metrics::label::{assert_legal_key, Labels};
use metrics::metric::Metric;
use metrics::metric_register::MetricsRegister;
use metrics::prom_reporter::PromReporter;
use metrics::{Measure, DURATION_MAX};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

fn leak(x: &str) -> &'static str { Box::leak(x.to_string().into_boxed_str()) }
static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn labels(v: &Value) -> Labels {
    // exercised through the public conversions (arrays of pairs), merged
    let mut l = Labels::default();
    for (n, p) in v.as_array().unwrap().iter().enumerate() {
        let (k, x) = (leak(p[0].as_str().unwrap()), p[1].as_str().unwrap());
        let way = n + v.as_array().unwrap().len() * 3 + x.len() + k.len() + CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if let (0..=4, Ok(num)) = (way % 7, x.parse::<u64>()) { l.extend(Labels::from([(k, num)])); continue; }
        let one: Labels = match way % 6 {
            0 => [(k, x.to_string())].into(),
            1 => [(k, x)].into(),
            2 => [(k, Cow::from(x.to_string()))].into(),
            3 => (&[(k, leak(x))]).into(),
            4 => { l.insert((k, Cow::from(x.to_string()))); continue; }
            _ => [(k, Some(x)), ("absent", None)].into(),
        };
        l.extend(one);
    }
    l
}
enum M { C(Metric<U64Counter>), G(Metric<U64Gauge>), A(Metric<U64Average>), H(Metric<U64Histogram>), DC(Metric<DurationCounter>), DG(Metric<DurationGauge>), DH(Metric<DurationHistogram>) }
enum R { C(U64Counter), G(U64Gauge), A(U64Average), H(U64Histogram), DC(DurationCounter), DG(DurationGauge), DH(DurationHistogram) }
fn hist(total: i64, b: Vec<(i64, u64)>) -> Value { json!([total, b.iter().map(|(l, c)| json!([l, c])).collect::<Vec<_>>()]) }
fn rec_val(r: &R) -> Value {
    let le = |x: u64| if x == u64::MAX { -1 } else { x as i64 };
    let dm = |d: Duration| if d == DURATION_MAX { -1 } else { d.as_millis() as i64 };
    match r {
        R::C(c) => json!([c.fetch()]), R::G(g) => json!([g.fetch()]), R::A(_) => json!([]),
        R::DC(c) => json!([dm(c.fetch())]), R::DG(c) => json!([dm(c.fetch())]),
        R::H(h) => { let v = h.fetch(); hist(v.total as i64, v.buckets.iter().map(|b| (le(b.le), b.count)).collect()) }
        R::DH(h) => { let v = h.fetch(); hist(dm(v.total), v.buckets.iter().map(|b| (dm(b.le), b.count)).collect()) }
    }
}
/// Prometheus text -> [type, help, name, sorted labels, milli-value]
fn parse(text: &str) -> Vec<Value> {
    let (mut ty, mut help) = (BTreeMap::new(), BTreeMap::new());
    let mut out = vec![];
    for line in text.lines() {
        if let Some(r) = line.strip_prefix("# HELP ") { let (n, h) = r.split_once(' ').unwrap_or((r, "")); help.insert(n.to_string(), h.to_string()); continue; }
        if let Some(r) = line.strip_prefix("# TYPE ") { let (n, h) = r.split_once(' ').unwrap(); ty.insert(n.to_string(), h.to_string()); continue; }
        let (head, val) = line.rsplit_once(' ').expect("HARNESS prom line");
        let (name, lab) = match head.split_once('{') { Some((n, l)) => (n, l.trim_end_matches('}')), None => (head, "") };
        let mut ls: Vec<(String, String)> = lab.split(',').filter(|x| !x.is_empty()).map(|kv| { let (k, v) = kv.split_once('=').unwrap(); (k.to_string(), v.trim_matches('"').to_string()) }).collect();
        let mut le = json!([]);
        if let Some(p) = ls.iter().position(|x| x.0 == "le" && name.ends_with("_bucket")) {
            let x = ls.remove(p).1;
            le = json!([if x == "+Inf" { -1 } else { (x.parse::<f64>().unwrap() * 1000.0).round() as i64 }]);
        }
        ls.sort();
        let base = ["_bucket", "_sum", "_count"].iter().filter_map(|s| name.strip_suffix(s)).find(|b| ty.get(*b).map(|t| t == "histogram").unwrap_or(false)).unwrap_or(name).to_string();
        let v: f64 = val.parse().unwrap();
        out.push(json!({"ty": ty.get(&base).cloned().unwrap_or_default(), "help": help.get(&base).cloned().unwrap_or_default(), "name": base, "part": &name[base.len()..],
            "labels": ls.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "le": le, "v": (v * 1000.0).round() as i64}));
    }
    out
}
fn report_reg(r: &MetricsRegister) -> Vec<Value> { let mut buf = vec![]; r.report(&mut PromReporter::new(&mut buf)); parse(&String::from_utf8(buf).unwrap()) }

fn main() {
    let mut regs: Vec<Arc<MetricsRegister>> = vec![];
    let mut ms: Vec<M> = vec![];
    let mut rs: Vec<R> = vec![];
    drive(&["new", "storm", "label", "defaults"], |op| {
        let name = s(op, "op");
        match name.as_str() {
            "new" => { regs = vec![Arc::new(MetricsRegister::new(labels(&op["labels"])))]; ms.clear(); rs.clear(); json!({}) }
            "sub" => {
                let r = regs[u(op, "reg") as usize - 1].sub_register(labels(&op["labels"]));
                let id = regs.iter().position(|x| Arc::ptr_eq(x, &r)).unwrap_or_else(|| { regs.push(r); regs.len() - 1 });
                json!({"ret": id + 1})
            }
            "labels" => json!({"ret": regs[u(op, "reg") as usize - 1].labels().iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()}),
            "subs" => { let mut v: Vec<usize> = regs[u(op, "reg") as usize - 1].sub_registers().iter().map(|r| regs.iter().position(|x| Arc::ptr_eq(x, r)).map(|p| p + 1).unwrap_or(0)).collect(); v.sort(); json!({"ret": v}) }
            "metric" => {
                let r = &regs[u(op, "reg") as usize - 1];
                let (n, d) = (s(op, "name"), s(op, "help"));
                let bs: Vec<i64> = op["buckets"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                let viaopt = op["direct"].as_bool().unwrap();
                ms.push(match s(op, "kind").as_str() {
                    "counter" => M::C(if viaopt { r.register_metric(n, d, ()) } else { r.metric(n, d) }),
                    "gauge" => M::G(if viaopt { r.register_metric(n, d, ()) } else { r.metric(n, d) }),
                    "avg" => M::A(r.metric(n, d)),
                    "dcounter" => M::DC(r.metric(n, d)),
                    "dgauge" => M::DG(r.register_metric(n, d, ())),
                    "hist" => M::H(r.register_metric(n, d, U64HistogramOptions::new(bs.iter().map(|x| if *x < 0 { u64::MAX } else { *x as u64 })))),
                    "dhist" => M::DH(r.register_metric(n, d, DurationHistogramOptions::new(bs.iter().map(|x| if *x < 0 { DURATION_MAX } else { Duration::from_millis(*x as u64) })))),
                    k => panic!("HARNESS {k}"),
                });
                json!({"m": ms.len()})
            }
            "recorder" => {
                let l = labels(&op["labels"]);
                rs.push(match &ms[u(op, "m") as usize - 1] { M::C(m) => R::C(m.recorder(l)), M::G(m) => R::G(m.recorder(l)), M::A(m) => R::A(m.recorder(l)), M::H(m) => R::H(m.recorder(l)), M::DC(m) => R::DC(m.recorder(l)), M::DG(m) => R::DG(m.recorder(l)), M::DH(m) => R::DH(m.recorder(l)) });
                json!({"r": rs.len()})
            }
            "remove" => {
                let l = labels(&op["labels"]);
                match &ms[u(op, "m") as usize - 1] { M::C(m) => m.remove(l), M::G(m) => m.remove(l), M::A(m) => m.remove(l), M::H(m) => m.remove(l), M::DC(m) => m.remove(l), M::DG(m) => m.remove(l), M::DH(m) => m.remove(l) }
                json!({})
            }
            "rec" => {
                let (v, c) = (u(op, "v"), u(op, "c"));
                let d = Duration::from_millis(v);
                // now and then through another handle of the same recorder
                use metrics::MetricRecorder as _;
                let again = match &rs[u(op, "r") as usize - 1] { R::C(x) => R::C(x.recorder()), R::G(x) => R::G(x.recorder()), R::A(x) => R::A(x.recorder()), R::H(x) => R::H(x.recorder()), R::DC(x) => R::DC(x.recorder()), R::DG(x) => R::DG(x.recorder()), R::DH(x) => R::DH(x.recorder()) };
                let r = &rs[u(op, "r") as usize - 1];
                match if v % 2 == 0 { r } else { &again } {
                    R::C(x) => if c == 1 && v == 1 { x.inc_one() } else { x.inc(v) },
                    R::G(x) => x.set(v), R::A(x) => x.add(v), R::DC(x) => x.inc(d), R::DG(x) => x.set(d),
                    R::H(x) => if c == 1 { x.record(v) } else { x.record_multiple(v, c) },
                    R::DH(x) => if c == 1 { x.record(d) } else { x.record_multiple(d, c) },
                }
                json!({"ret": rec_val(r)})
            }
            "fetch" => json!({"ret": rec_val(&rs[u(op, "r") as usize - 1])}),
            "onetime" => {
                // one measure holding a gauge closure per entry; a closure without a value yields no sample
                let m: Metric<GaugeWrap> = if op["mlabels"].as_array().unwrap().is_empty() { Metric::new(s(op, "name"), s(op, "help"), ()) } else { Metric::new_with_labels(s(op, "name"), s(op, "help"), labels(&op["mlabels"]), ()) };
                let v = op["value"].as_array().unwrap().first().map(|x| x.as_u64().unwrap());
                let g = GaugeWrap::new(Arc::new(move || v));
                let seen = metrics::MetricRecorder::recorder(&g).gauge().map(|x| json!([x])).unwrap_or(json!([]));
                m.register_recorder(labels(&op["labels"]), g);
                let b: Vec<Box<dyn Measure>> = vec![Box::new(m)];
                regs[u(op, "reg") as usize - 1].append_onetime(b);
                json!({"gauge": seen})
            }
            "report" => json!({"ret": report_reg(&regs[u(op, "reg") as usize - 1])}),
            "reportm" => {
                let mut buf = vec![];
                { let mut p = PromReporter::new(&mut buf);
                match &ms[u(op, "m") as usize - 1] { M::C(m) => m.report(&mut p), M::G(m) => m.report(&mut p), M::A(m) => m.report(&mut p), M::H(m) => m.report(&mut p), M::DC(m) => m.report(&mut p), M::DG(m) => m.report(&mut p), M::DH(m) => m.report(&mut p) } }
                json!({"ret": parse(&String::from_utf8(buf).unwrap())})
            }
            "storm" => {
                let reg = Arc::new(MetricsRegister::default());
                let (n, per) = (u(op, "threads"), u(op, "per"));
                let hs: Vec<_> = (0..n).map(|t| { let reg = reg.clone(); std::thread::spawn(move || {
                    for k in 0..per {
                        reg.metric::<U64Counter>("c", "h").recorder([("t", (k % 3).to_string())]).inc(t + 1);
                        reg.metric::<DurationCounter>("d", "h").recorder([("t", "x")]).inc(Duration::from_millis(2));
                        reg.register_metric::<U64Histogram>("h", "h", U64HistogramOptions::new([10u64, u64::MAX])).recorder([("t", "x")]).record(k % 20);
                    }
                }) }).collect();
                for h in hs { h.join().unwrap(); }
                let rep = report_reg(&reg);
                let sum = |name: &str, part: &str| rep.iter().filter(|x| x["name"] == name && x["part"] == part).map(|x| x["v"].as_i64().unwrap()).sum::<i64>() / 1000;
                json!({"c": sum("c", ""), "dsec": rep.iter().filter(|x| x["name"] == "d_seconds_total").map(|x| x["v"].as_i64().unwrap()).sum::<i64>(), "hn": sum("h", "_count"), "hsum": sum("h", "_sum")})
            }
            "defaults" => {
                let reg = Arc::new(MetricsRegister::default());
                let m = reg.register_metric::<DurationHistogram>("d", "h", DurationHistogramOptions::default());
                let r = m.recorder([("t", "x")]);
                r.record(Duration::from_micros(u(op, "v")));
                let us = |d: Duration| if d == DURATION_MAX { -1 } else { d.as_micros() as i64 };
                let f = r.fetch();
                let text = { let mut b = vec![]; reg.report(&mut PromReporter::new(&mut b)); String::from_utf8(b).unwrap() };
                json!({"total": us(f.total), "buckets": f.buckets.iter().map(|b| json!([us(b.le), b.count])).collect::<Vec<_>>(), "les": text.lines().filter(|l| l.starts_with("d_seconds_bucket")).map(|l| { let x = l.split("le=\"").nth(1).unwrap().split('"').next().unwrap().to_string(); if x.trim_start_matches('+').eq_ignore_ascii_case("inf") { "+Inf".to_string() } else { x } }).collect::<Vec<_>>()})
            }
            // every conversion, with the key first and second of two
            "label" => {
                let k = s(op, "k"); let lk = leak(&k);
                fn tried(f: impl FnOnce() -> Labels) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() }
                let mut ok = vec![tried(|| { assert_legal_key(&k); Labels::default() }), tried(|| [(lk, "x")].into())];
                for two in [[lk, "ok"], ["ok", lk]] {
                    let [a, b] = two;
                    ok.push(tried(|| [(a, "x"), (b, "y")].into()));
                    ok.push(tried(|| [(a, "x".to_string()), (b, "y".to_string())].into()));
                    ok.push(tried(|| [(a, Cow::from("x")), (b, Cow::from("y"))].into()));
                    ok.push(tried(|| [(a, 1u64), (b, 2u64)].into()));
                    ok.push(tried(|| (&[(a, "x"), (b, "y")]).into()));
                }
                json!({"ok": ok})
            }
            x => panic!("HARNESS: op {x}"),
        }
    });
}
