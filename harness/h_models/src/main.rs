mod auth;
mod domains;
fn main() {
    h_util::isolate_stdout();
    match std::env::args().nth(1).as_deref() {
        Some("domains") => domains::main(),
        Some("auth") => auth::main(),
        m => panic!("HARNESS mode {m:?}"),
    }
}
