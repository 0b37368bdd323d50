//! Storage engine harness: one vnode driven through the raft-log + apply path.
mod data;
mod meta_srv;
mod rlog;
mod codec;
mod store;
fn main() {
    h_util::isolate_stdout();
    let mode = std::env::args().nth(1).expect("HARNESS mode");
    match mode.as_str() {
        "store" => store::run(),
        "rlog" => rlog::run(),
        "codec" => codec::run(),
        m => panic!("HARNESS mode {m}"),
    }
}
