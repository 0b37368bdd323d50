//! The Flight SQL stand-in as a process of its own: one line of instructions in, one line of answers out.
#[path = "../common.rs"]
mod common;
#[path = "../flight.rs"]
mod flight;
use common::*;
use serde_json::{json, Value};
fn main() {
    let b = flight::Shared::default();
    flight::reset(&b);
    println!("{}", flight::start(b.clone()));
    for l in std::io::stdin().lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        if let Some(a) = v["answers"].as_object() {
            flight::reset(&b);
            let mut g = b.lock().unwrap();
            for (k, v) in a { g.answers.insert(k.clone(), v.clone()); }
            println!("ok");
        } else { println!("{}", json!(b.lock().unwrap().seen)) }
    }
}
