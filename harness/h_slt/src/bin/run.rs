fn main() { if let Err(e) = sqllogicaltests::main() { eprintln!("{e}"); std::process::exit(7) } }
