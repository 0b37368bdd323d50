//! Replays metadata commands on the real `StateMachine` (and, in `cli` mode, through the real clients).
mod cli;
mod srv;
mod types;
mod web;
fn main() {
    h_util::isolate_stdout();
    match std::env::args().nth(1).as_deref() {
        Some("srv") => srv::main(),
        Some("cli") => cli::main(),
        m => panic!("HARNESS mode {m:?}"),
    }
}
