//! Script interpreter plumbing shared by the harnesses: one JSON op per input line,
//! one JSON event (the op plus what the real code answered) per output line.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| { if std::env::var_os("VERIF_PANICS").is_some() { eprintln!("PANIC {i}\n{}", std::backtrace::Backtrace::force_capture()); } }));
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
static OUT: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();
/// Keep what the code under test prints out of the event stream.
pub fn isolate_stdout() {
    use std::os::fd::FromRawFd;
    let f = unsafe { let d = dup(1); dup2(2, 1); std::fs::File::from_raw_fd(d) };
    let _ = OUT.set(std::sync::Mutex::new(f));
}

pub fn emit(v: &Value) {
    if let Some(f) = OUT.get() {
        let mut b = serde_json::to_vec(v).unwrap();
        b.push(b'\n');
        f.lock().unwrap().write_all(&b).unwrap();
        return;
    }
    let out = std::io::stdout();
    let mut o = out.lock();
    serde_json::to_writer(&mut o, v).unwrap();
    o.write_all(b"\n").unwrap();
}

/// Feed every scripted op to `f`; `f` returns the fields to add to the event.
/// A panic of the code under test is recorded as an event the specification has no action for;
/// the rest of that case (until the next op named in `resets`) is skipped.
pub fn drive(resets: &[&str], mut f: impl FnMut(&Value) -> Value) {
    quiet_panics();
    let stdin = std::io::stdin();
    let mut skipping = false;
    for line in stdin.lock().lines() {
        let line = line.expect("HARNESS: stdin");
        if line.trim().is_empty() { continue; }
        let op: Value = serde_json::from_str(&line).expect("HARNESS: bad op");
        let name = op["op"].as_str().unwrap_or("").to_string();
        if resets.contains(&name.as_str()) { skipping = false; }
        if skipping { continue; }
        let r = catch_unwind(AssertUnwindSafe(|| f(&op)));
        match r {
            Ok(Value::Array(events)) => { for e in events { emit(&e); } }
            Ok(add) => {
                let mut ev = op.clone();
                if let (Some(m), Value::Object(a)) = (ev.as_object_mut(), add) {
                    for (k, v) in a { m.insert(k, v); }
                }
                emit(&ev);
            }
            Err(p) => {
                let msg = panic_msg(p);
                if msg.contains("HARNESS") { eprintln!("{msg}"); std::process::exit(3); }
                emit(&json!({"op": "panic", "during": op, "msg": msg}));
                skipping = true;
            }
        }
    }
}

pub fn s(v: &Value, k: &str) -> String { v[k].as_str().unwrap_or_else(|| panic!("HARNESS: field {k} of {v}")).to_string() }
pub fn i(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap_or_else(|| panic!("HARNESS: field {k} of {v}")) }
pub fn u(v: &Value, k: &str) -> u64 { v[k].as_u64().unwrap_or_else(|| panic!("HARNESS: field {k} of {v}")) }
pub fn b(v: &Value, k: &str) -> bool { v[k].as_bool().unwrap_or_else(|| panic!("HARNESS: field {k} of {v}")) }
pub fn opt<T: serde::Serialize>(o: Option<T>) -> Value { match o { Some(x) => json!([x]), None => json!([]) } }

/// Natural number as little-endian base-10000 limbs (TLC integers have 32 bits); zero is [].
pub fn nat(mut x: u128) -> Value {
    let mut v = vec![];
    while x > 0 { v.push(json!((x % 10000) as u64)); x /= 10000; }
    Value::Array(v)
}
pub fn unnat(v: &Value) -> u128 { v.as_array().expect("HARNESS nat").iter().rev().fold(0u128, |a, d| a * 10000 + d.as_u64().unwrap() as u128) }
/// Signed: [negative?, magnitude]
pub fn int(x: i128) -> Value { json!([x < 0, nat(x.unsigned_abs())]) }
pub fn unint(v: &Value) -> i128 { let m = unnat(&v[1]) as i128; if v[0].as_bool().unwrap() { -m } else { m } }
/// 64 bits as four 16-bit limbs, least significant first
pub fn limbs16(x: u64) -> Value { json!([x & 0xffff, (x >> 16) & 0xffff, (x >> 32) & 0xffff, x >> 48]) }
