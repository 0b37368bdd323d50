// the command line tool of the config crate, as it stands in the staged tree
include!("../../../../config/src/bin/cnosdb_config/main.rs");
