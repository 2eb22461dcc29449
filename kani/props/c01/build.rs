//! The checked code never has to wait here: its async functions are encoded as plain ones.
//! What is made is the current source, less `async` before `fn` and `.await`, line by line.
use std::{env, fs, path::Path};
const FILES: [&str; 2] = ["header_validator", "historical_summaries_provider"];
fn main() {
    for f in FILES {
        let s = fs::read_to_string(format!("/repo/crates/validation/src/{f}.rs")).unwrap();
        let s = s.replace("async fn", "fn").replace(".await", "");
        fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join(format!("{f}.rs")), s).unwrap();
    }
}
