//! Makes the program's own `main` callable: a copy of /repo's main.rs as a module of this crate.
use std::path::PathBuf;

fn main() {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let src = here.join("../../../repo/src/main.rs");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    let text = std::fs::read_to_string(&src).expect("main.rs");
    // a module in the middle of a crate has no inner attributes
    let mut out: String = text.lines().map(|l| if l.starts_with("#![") || l.starts_with("//!") { "\n".to_string() } else { format!("{}\n", l) }).collect();
    out.push_str("pub fn sim_main() -> impl std::process::Termination {\n    main()\n}\n");
    std::fs::write(PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("cli_main.rs"), out).unwrap();
}
